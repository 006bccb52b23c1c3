"""Case generators for the evaluation properties."""
import random

import gens

BIG = "\n#limit 1000000"


def _texts(rng, al, n, extra):
    strs = gens.all_strings(al, n)
    return strs + [gens.decorate(rng, rng.choice(strs)) for _ in range(extra)]


def template(rng, n, al=gens.LET):
    """A long expression made from a text, and the text"""
    w = "".join(rng.choice(al) for _ in range(n))
    out, i = [], 0
    while i < len(w):
        r = rng.random()
        c = w[i]
        if r < 0.5:
            out.append(c)
        elif r < 0.6:
            out.append(".")
        elif r < 0.68:
            out.append("[" + c + rng.choice(al) + "]")
        elif r < 0.74:
            out.append(c + rng.choice(["?", "*", "+", "{1,2}", "{,3}"]))
        elif r < 0.8:
            k = min(len(w) - i, rng.randint(2, 5))
            out.append("(" + w[i:i + k] + "|" + "".join(rng.choice(al) for _ in range(3)) + ")")
            i += k
            continue
        elif r < 0.86:
            k = min(len(w) - i, rng.randint(2, 9))
            out.append(".{%d}" % k)
            i += k
            continue
        elif r < 0.9:
            k = min(len(w) - i, rng.randint(2, 4))
            out.append("(" + w[i:i + k] + rng.choice([":^)", ":-)"]))
            i += k
            continue
        elif r < 0.95:
            out.append(rng.choice(al) + "?" + c)
        else:
            out.append(c + "(" + rng.choice(al) + rng.choice(al) + ")*")
        i += 1
    return "".join(out), w


def neighbours(rng, w, al, n):
    out = [w]
    for _ in range(n):
        x = rng.choice(out)
        out.append(gens.mutate(rng, x, al))
    return [x for x in out if x]


def singles(rng, i):
    """Single words, no edits, no anagrams"""
    r = rng.random()
    expl = rng.random() < 0.35
    if r < 0.6:
        al = rng.choice(["ab", "abc", "abc", "abcd"])
        ws = gens.make_words(rng, _texts(rng, al, {2: 6, 3: 4, 4: 3}[len(al)], 25), rng.choice([(0,), (0, 1), (0, 2, 7)]))
        q = gens.G(rng, al, expl=expl).expr(rng.choice([1, 2, 2, 3]))
    elif r < 0.85:
        al = rng.choice(["abcde", gens.LET])
        q, w = template(rng, rng.choice([5, 12, 20, 34, 40, 70, 100]), al)
        ts = neighbours(rng, w, al, 30)
        ts += [gens.decorate(rng, rng.choice(ts)) for _ in range(10)]
        ws = gens.make_words(rng, ts)
    else:
        # many words
        al = "abc"
        ts = gens.all_strings(al, 4) + ["".join(rng.choice(al) for _ in range(rng.randint(5, 9))) for _ in range(rng.choice([150, 400]))]
        ws = gens.make_words(rng, ts, rng.choice([(0,), (0, 1, 2)]))
        q = gens.G(rng, al, expl=expl).expr(2)
    if expl:
        q += rng.choice(["", " !_", " !'", " !_ !'", "!'"])
    return {"id": i, "op": "eval", "query": q + "\n#words 1" + BIG, "words": ws}


def fuzzy(rng, i):
    r = rng.random()
    k = rng.choice([1, 1, 1, 2, 2, 3])
    expl = rng.random() < 0.25
    if r < 0.65:
        al = rng.choice(["ab", "abc", "abc"])
        ws = gens.make_words(rng, _texts(rng, al, {2: 6, 3: 4}[len(al)], 25))
        q = gens.G(rng, al, expl=expl).expr(rng.choice([0, 1, 1, 2]))
    else:
        al = rng.choice(["abcde", gens.LET])
        q, w = template(rng, rng.choice([3, 6, 12, 20, 40]), al)
        if rng.random() < 0.4:
            q = w
        ts = neighbours(rng, w, al, 40)
        ts += [gens.decorate(rng, rng.choice(ts)) for _ in range(10)]
        ws = gens.make_words(rng, ts)
    q += rng.choice([" !%d", "!%d", " ! %d"]) % k
    if expl:
        q += rng.choice(["", " !_", " !'", " !_ !'"])
    return {"id": i, "op": "eval", "query": q + "\n#words 1" + BIG, "words": ws}


def long_anagram(rng, i):
    """An anagram of many letters, alone or in company, and words which are nearly right"""
    al = rng.choice(["abc", "abcde", gens.LET, gens.LET])
    bank = [rng.choice(al) for _ in range(rng.choice([5, 6, 7, 9, 12, 16]))]
    k = rng.choice([0, 1, 2, 3, 5])
    kind = rng.choice(["", "", "+", "-", "+%d" % k, "-%d" % k])
    ts = []
    for _ in range(60):
        w = bank[:]
        rng.shuffle(w)
        if kind.startswith("-") and rng.random() < 0.8:
            w = w[:max(1, len(w) - rng.randint(0, (len(w) if kind == "-" else k) + 1))]
        if kind.startswith("+") and rng.random() < 0.8:
            for _ in range(rng.randint(0, (3 if kind == "+" else k) + 1)):
                w.insert(rng.randint(0, len(w)), rng.choice(al))
        w = "".join(w)
        if rng.random() < 0.3:
            w = gens.mutate(rng, w, al)
        if rng.random() < 0.1:
            w = gens.decorate(rng, w)
        ts.append(w or "a")
    a = "<" + "".join(bank) + kind + ">"
    x = rng.choice(al)
    q = rng.choice([a, a, a, a + x + "?", x + "?" + a, "(" + a + "|.{3})", a + ".*", "(.%s:^)" % a])
    if rng.random() < 0.2:
        # the same in several words
        j = rng.randint(1, len(bank) - 1)
        ts = [p for t in ts[:12] for p in (t[:j], t[j:]) if p.strip(" _")] + ts[:3]
        return {"id": i, "op": "eval", "query": q + "\n#words 2" + BIG, "words": gens.make_words(rng, ts)}
    return {"id": i, "op": "eval", "query": q + "\n#words 1" + BIG, "words": gens.make_words(rng, ts)}


def anagrams(rng, i):
    if rng.random() < 0.12:
        return long_anagram(rng, i)
    r = rng.random()
    al = rng.choice(["ab", "abc", "abc", "abcd"])
    ws = gens.make_words(rng, _texts(rng, al, {2: 7, 3: 4, 4: 4}[len(al)], 15))
    g = gens.G(rng, al, ana=rng.choice([0.3, 0.6]), expl=rng.random() < 0.1)
    if r < 0.4:
        q = g.anagram()
    else:
        q = g.expr(rng.choice([0, 1, 2]))
    if rng.random() < 0.15:
        q += " !1"
    depth = 1
    if rng.random() < 0.25:
        depth = 2
        ws = gens.make_words(rng, [rng.choice(ws)[0] for _ in range(12)])
    return {"id": i, "op": "eval", "query": q + "\n#words %d" % depth + BIG, "words": ws}


def _phrase_words(rng, al, shapes):
    k, d = rng.choice(shapes)
    n = {1: 8, 2: 5, 3: 4}.get(len(al), 3)
    ts = [("".join(rng.choice(al) for _ in range(rng.randint(1, n)))) for _ in range(k)]
    if rng.random() < 0.3:
        ts = [gens.decorate(rng, t) if rng.random() < 0.4 else t for t in ts]
    tr = rng.choice([(0,), (0,), (0, 1), (1, 3), (0, 1, 2, 5), (0, 4, 9, 200)])
    return gens.make_words(rng, ts, tr), d


def long_phrase(rng, i, conj=False):
    """A text of many letters, which is cut into words in several ways"""
    al = rng.choice(["abcd", gens.LET, gens.LET])
    n, d = rng.choice([(12, 3), (20, 3), (26, 4), (33, 4), (40, 5), (66, 5)])
    text = "".join(rng.choice(al) for _ in range(n))
    q = list(text)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        j = rng.randrange(n)
        c = text[j]
        q[j] = rng.choice([".", c + "?", "[" + c + rng.choice(al) + "]", "(" + c + "|" + rng.choice(al) * 2 + ")", c + "{1,3}", "(" + c + rng.choice(al) + ":^)", "[^%s]" % rng.choice([x for x in al if x != c])])
    q = "".join(q)
    ts = []
    for _ in range(rng.choice([2, 3, 4])):
        parts = gens.split_prob(rng, text, rng.randint(2, d))
        ts += parts
        if rng.random() < 0.5:
            ts[-1] = gens.mutate(rng, ts[-1], al) or "a"
    ts += ["".join(rng.choice(al) for _ in range(rng.randint(2, 5))) for _ in range(5)]
    ts = [gens.decorate(rng, t) if rng.random() < 0.1 else t for t in ts]
    fz = rng.choice(["", "", "", " !1"])
    qs = [q + fz]
    if conj:
        lens = [len(x) for x in parts]
        qs.append(rng.choice([" ".join(map(str, lens)), ".{%d}" % n, ".{%d,}" % n, ".*%s.*" % parts[0][:2], text + " !%d" % rng.randint(1, 3),
                              "(%s:-)" % "".join(text[:30]), ".*_.*", "".join(x[:1] + ".*_" for x in parts)]))
        rng.shuffle(qs)
    return {"id": i, "op": "eval", "query": "\n".join(qs) + "\n#words %d" % d + BIG, "words": gens.make_words(rng, ts, rng.choice([(0,), (0, 1), (0, 2, 5)]))}


SHAPES = [(4, 4), (5, 3), (6, 3), (8, 3), (12, 2), (20, 2), (3, 5), (2, 7), (2, 6), (1, 10), (1, 12)]


def phrases(rng, i, shapes=SHAPES):
    if rng.random() < 0.006:
        return long_phrase(rng, i)
    r = rng.random()
    al = rng.choice(["a", "ab", "ab", "abc", "abc"])
    ws, d = _phrase_words(rng, al, shapes)
    if r < 0.55:
        q = gens.G(rng, al, expl=rng.random() < 0.3).expr(rng.choice([1, 2]))
    elif r < 0.8:
        # a text which can be split into words of the list
        ts = [w[0] for w in ws if all(c in gens.LET for c in w[0])] or ["a"]
        text = "".join(rng.choice(ts) for _ in range(rng.randint(2, max(2, d))))
        q = text
        if rng.random() < 0.5:
            j = rng.randrange(len(text))
            q = text[:j] + rng.choice([".", ".*", "[ab]", "(a|b)", "b?"]) + text[j + 1:]
    else:
        q = rng.choice([".{%d}" % rng.randint(2, 9), "%d %d" % (rng.randint(1, 3), rng.randint(1, 3)),
                        "(%s)*" % "".join(rng.choice(al) for _ in range(rng.randint(1, 3))),
                        ".*", "(.{%d})*" % rng.randint(2, 4), "%s.*%s" % (rng.choice(al), rng.choice(al)),
                        "._.*", "(..+_)+", "%d" % rng.randint(1, 4)])
    q += rng.choice(["", "", "", "", " !1", " !_", " !'"])
    return {"id": i, "op": "eval", "query": q + "\n#words %d" % d + BIG, "words": ws}


def conjunctions(rng, i):
    if rng.random() < 0.01:
        return long_phrase(rng, i, True)
    al = rng.choice(["ab", "abc"])
    n = rng.choice([2, 2, 2, 3, 4])
    if rng.random() < 0.35:
        ws = gens.make_words(rng, _texts(rng, al, {2: 6, 3: 4}[len(al)], 20), rng.choice([(0,), (0, 1)]))
        d = 1
    else:
        ws, d = _phrase_words(rng, al, [(4, 3), (6, 2), (12, 2), (16, 2), (3, 4), (2, 6), (1, 8)])
    qs = []
    for k in range(n):
        g = gens.G(rng, al, expl=rng.random() < 0.15)
        r = rng.random()
        if r < 0.3:
            q = rng.choice([".*", "%s.*" % rng.choice(al), ".*%s" % rng.choice(al), ".*%s.*" % rng.choice(al),
                            "(..)*", "(...)*", ".(..)*", ".{1,4}", "[^%s].*" % rng.choice(al)])
        elif r < 0.4:
            q = g.anagram()
        else:
            q = g.expr(1)
        q += rng.choice(["", "", "", "", " !1", " !_", " !'"])
        qs.append(q)
    return {"id": i, "op": "eval", "query": rng.choice(["\n", ";"]).join(qs) + "\n#words %d" % d + BIG, "words": ws}


def ordered(rng, i):
    """Problems with many results"""
    al = rng.choice(["ab", "abc"])
    k, d = rng.choice([(40, 2), (25, 2), (10, 3), (5, 4), (3, 5), (2, 8), (14, 2)])
    n = {2: 5, 3: 4}[len(al)]
    ts = [("".join(rng.choice(al) for _ in range(rng.randint(1, n)))) for _ in range(k)]
    ts = [gens.decorate(rng, t) if rng.random() < 0.15 else t for t in ts]
    ws = gens.make_words(rng, ts, rng.choice([(0,), (0, 1), (0, 1, 2), (2, 5, 6), (0, 3, 255)]))
    qs = []
    for _ in range(rng.choice([1, 1, 2])):
        qs.append(rng.choice([".*", ".{%d,}" % rng.randint(1, 4), ".{%d,%d}" % (rng.randint(1, 3), rng.randint(4, 12)),
                              ".*%s.*" % rng.choice(al), "%s.*" % rng.choice(al), ".*%s" % rng.choice(al),
                              "(..)*", gens.G(rng, al).expr(1), gens.G(rng, al).expr(1) + " !1", "._.*", ".*'.*"]))
    return {"id": i, "op": "eval", "query": "\n".join(qs) + "\n#words %d" % d + "\n#limit 1500", "words": ws}


def deep(rng, i):
    """So many words that the number of phrases is beyond any machine word, of which few match"""
    k = rng.choice([86, 100, 128, 128, 160, 192, 256])
    ts = rng.sample(gens.all_strings(gens.LET[:16], 2)[16:], k - 1) + ["q"]
    one = ts[0]
    rest = [c for c in "abcdefgh" if c != one[0]]
    x, y = rng.sample(rest, 2)
    lo = rng.randint(6, 8)
    hi = rng.randint(9, 11)
    ws = gens.make_words(rng, ts, rng.choice([(0,), (0, 1), (0, 0, 0, 1, 7)]))
    ws = gens.sort_words([[t, rng.choice([r, 0]) if t == one else r, s] for t, r, s in ws])
    q = "(%s){%d,%d}|%s.*\n(%s){%d,%d}|%s.*" % (one, lo, hi, x, one, lo, hi, y)
    return {"id": i, "op": "eval", "query": q + "\n#words %d" % rng.randint(hi, 12) + "\n#limit 1500", "words": ws}


def many_groups(rng, i):
    """Long phrases of a few words, in many groups; many of the searches for them are estimated to be as large as others"""
    one = rng.choice(["a", "a", "ab", "i"])
    x = rng.choice("bcd")
    ts = [(one, 0)]
    if rng.random() < 0.2:
        ts.append((one + "'", 0))
    trs = rng.sample([1, 2, 3, 5, 9], rng.randint(1, 4))
    for _ in range(rng.randint(2, 6)):
        ts.append((rng.choice([one + x, x + one, x, x * 2, one * 2, one + one + x, x + "e", one[::-1] + "f"]), rng.choice(trs)))
    q = rng.choice(["%s*%s" % (one * (len(one) == 1) or "(ab)", x), "(%s)*" % one, "(%s)*(%s)*" % (one, x), "(%s)*%s?(%s)?" % (one, x, one), "(%s)*%s(%s)*" % (one, x, one),
                    "(%s)*.{0,3}" % one, "%s?(%s)*" % (x, one)])
    d = rng.choice([9, 13, 16, 21, 24, 30, 40])
    return {"id": i, "op": "eval", "words": gens.sort_words([[t, r, 0] for t, r in dict(ts).items()]), "query": q + "\n#words %d\n#limit 600" % d}


def ordered_or_deep(rng, i):
    r = rng.random()
    return deep(rng, i) if r < 0.1 else many_groups(rng, i) if r < 0.3 else ordered(rng, i)


def make(fn, n, seed, tag):
    rng = random.Random(f"{seed}/{tag}")
    return [fn(rng, i) for i in range(n)]
