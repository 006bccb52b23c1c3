"""C09: reading queries."""
import itertools
import random

import gens
import lib

COMMENTS = ["// x", "-- (a|b", "/* c */", "/**/", "/* a; b".split(";")[0] + " */", "//", "--", "/* / * */", "// é", "/* 😀 */"]
DICTS = ["default", "en", "a.b", "it's", "x_y-z", "0", "Default2", "big-list.v1"]


def spaced(rng, s):
    """Spaces or comments somewhere; what that means is decided by the specification"""
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        i = rng.randint(0, len(s))
        s = s[:i] + rng.choice([" ", "  ", "/* x */", "/**/ ", " "]) + s[i:]
    if rng.random() < 0.1:
        s += " " + rng.choice(COMMENTS)
    return s


def expression(rng, al="abc"):
    r = rng.random()
    g = gens.G(rng, rng.choice([al, al, "ab", gens.LET]), ana=rng.choice([0, 0, 0.2]), expl=rng.random() < 0.4)
    if r < 0.7:
        q = g.expr(rng.choice([0, 1, 2, 2]))
    elif r < 0.8:
        q = rng.choice(["(%s)*", "((%s)?)+", "(%s:^)", "((%s)*:^)", "((%s){2}){3}", "(%s:+)", "((%s)+:-)", "((%s:^)){,3}"]) % g.expr(0)
    elif r < 0.88:
        q = "%d" % rng.randint(0, 12) + rng.choice(["", " 3", "a", "*", "{2}", " 2 1"])
    elif r < 0.93:
        q = rng.choice(["[a-c]{%d,%d}" % (rng.randint(0, 4), rng.randint(0, 5)), ".{,%d}" % rng.randint(0, 3), "[a-cx-z_]", "[^a-y]",
                        "[^a-z]", "[^a-z]b", "[a'_.]", "[abc", "(a|)", "a||b", "<ab", "<+>", "a{1,}", "a{,}", "()", "a**", "(a*)*",
                        "<abc+0>", "<aab-7>", "<Ab->", "[a-]", "(ab:*)", "a{70000}", "a{65535}", "(a{200}){200}", "[a - c]"])
    else:
        q = rng.choice([".*", "A_b'C", "[AbC]", "(A|b)+"])
    q += rng.choice(["", "", "", " !1", "!2", "!_", " !'", " ! 1", "!' !_ !0", "!70000", "!1!2", " !"])
    return spaced(rng, q)


def mutated(rng, s, n=1):
    for _ in range(n):
        i = rng.randint(0, len(s))
        r = rng.random()
        c = rng.choice("abcxyz019 ()[]<>{}|?*+-!_'.,#=/;:^\"\\~@é\tA\r")
        if r < 0.4:
            s = s[:i] + c + s[i:]
        elif r < 0.7:
            s = s[:i] + s[i + 1:]
        else:
            s = s[:i] + c + s[i + 1:]
    return s


def kw(rng, s):
    return "".join(c.upper() if rng.random() < 0.3 else c for c in s) if rng.random() < 0.3 else s


def line(rng, names):
    r = rng.random()
    if r < 0.42:
        q = expression(rng)
        if names and rng.random() < 0.6:
            i = rng.randint(0, len(q))
            q = q[:i] + rng.choice(names) + q[i:]
        return q
    if r < 0.6:
        n = rng.choice(["X", "VOWEL", "foo", "X1", "A_B", "XX", "FO", "Z", "a"])
        names.append(n)
        v = rng.choice([expression(rng), "[aeiou]", rng.choice(names), "(%s|%s)" % (rng.choice(names), "b"), "", " ", "a b", "#words 2",
                        "ab // not a comment?", "Y=3", "(", "!1"])
        return n + rng.choice(["=", " = ", "= ", " ="]) + v
    if r < 0.68:
        return kw(rng, "#words") + rng.choice([" ", "", "  "]) + rng.choice(["1", "2", "5", "0", "007", "1000", "1001", "01000", "12345678901", "99999999999999999999", "", "x", "3 4", "-1"])
    if r < 0.76:
        return kw(rng, "#limit") + rng.choice([" ", "", "  "]) + rng.choice(["1", "20", "300", "0", "18446744073709551615", "18446744073709551616", "", "all"])
    if r < 0.82:
        return kw(rng, rng.choice(["#dict", "#dictionary"])) + rng.choice([" ", "", "  "]) + rng.choice(DICTS + ["", "a b"])
    if r < 0.86:
        return kw(rng, "#quiet") + rng.choice(["", "", " ", " 1"])
    if r < 0.9:
        return rng.choice(["", " ", "   "]) + rng.choice(COMMENTS + [""])
    if r < 0.93:
        return rng.choice(["", " "])
    if r < 0.95:
        return rng.choice(["#wordlists", "#", "#foo", "# words 1", " #words 1", "#limit #words 1", "#wordlist x", "abc #words 1"])
    return mutated(rng, expression(rng))


WORDS = ["apple", "  pear ", "", "Éclair", "a b", "it's", "\tfig\t", "x;y", "// no comment", "#words 3", "apple", "zz  ", "日本", "naïve", " nb ", "1st", "X=2", "(((", "\r"]


def script(rng):
    names, lines = [], []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        lines.append(line(rng, names))
    if rng.random() < 0.2:
        lines.append(kw(rng, "#wordlist"))
        words = [rng.choice(WORDS) for _ in range(rng.randint(0, 8))]
        if rng.random() < 0.6:
            # words which differ in little
            w = rng.choice(words + ["ab", "it's", "É"])
            words += [rng.choice([w.upper(), w.capitalize(), w + "'", "'" + w, w[:1] + " " + w[1:], w[:1] + "-" + w[1:], w, w + w[-1:]]) for _ in range(rng.randint(1, 5))]
            rng.shuffle(words)
        lines += words
    s = "".join(x + rng.choice(["\n", "\n", "\n", ";"]) for x in lines)
    if rng.random() < 0.7:
        s = s[:-1]
    if rng.random() < 0.15:
        s = mutated(rng, s, rng.choice([1, 2, 3]))
    return s


def nested(rng):
    """Groups in groups"""
    n = rng.choice([3, 5, 6, 8, 12, 12, 30, 99, 100, 101, 102, 500, 20000])
    opn, cls = rng.choice([("(", ")"), ("(", ")*"), ("(a", "b)"), ("(a|", ")"), ("(", ":^)"), ("(", ":+)"), ("(b?", ")"), ("(", ")?"), ("( ", " ) ")])
    if n > 12 and "?" in cls + opn or ":+" in cls and n > 6:
        opn, cls = "(", ")"
    q = opn * n + "a" + cls * n
    if rng.random() < 0.2:
        q = mutated(rng, q)
    if rng.random() < 0.1:
        q = "/*" + "(" * rng.choice([90, 101]) + "*/a"
    return q


def large(rng):
    """Lines and expressions near the bounds"""
    r = rng.random()
    if r < 0.25:
        # tables of states and edits
        n = rng.choice([10, 100, 101, 1000, 4000, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385])
        z = rng.choice([n + 2, n + 3, n + 4, n + 5])
        f = max(0, min(65535, (1 << 29) // (z * z) - 1 + rng.choice([-1, 0, 0, 1, 2])))
        return rng.choice(["a{%d}", "(a{%d})", "%d", "a{,%d}", ".{%d,}", "a{0,%d}b"]) % n + rng.choice(["", "!%d" % f, "!%d" % f, "!65535", "!1000"])
    if r < 0.35:
        return rng.choice(["[%s]" % (gens.LET * rng.choice([10, 20])), "<%s>" % (gens.LET * rng.choice([3, 104, 105, 106])), "a|" * rng.choice([100, 300]) + "b"])
    if r < 0.6:
        # macros which double, up to the bound or beyond
        k = rng.choice([4, 10, 12, 14, 15, 16, 17, 40])
        names = [chr(65 + i % 26) + str(i) + "_" for i in range(k + 1)]
        names = [x + "z" * rng.choice([0, 0, 1]) for x in names]
        ls = [names[0] + "=" + rng.choice(["", "x", "b", "b c"] + ["y" * 1000] * (k == 4))]
        for i in range(k):
            ls.append(names[i + 1] + "=" + names[i] * 2)
        if rng.random() < 0.5:
            ls.append("a//" + names[k])
        return "\n".join(ls)
    if r < 0.8:
        # one value, many times
        v, k = rng.choice([(255, 256), (256, 256), (1000, 65), (1000, 66), (8000, 8), (8000, 9), (65000, 1), (65000, 2), (3, 10)])
        return "V=x" + "y" * (v - 3) + "z" + "\n" + rng.choice(["a//", "a//", "é", "#limit ", "W="]) + "V" * k
    n = rng.choice([65530, 65531, 65532, 65533, 65534, 65535, 65536, 66000, 200000])
    return rng.choice(["a//" + "x" * n, "a//" + "é" * (n // 2), "a//" + "é" * (n // 2) + "x", " " * (n % 3000) + "a", "#words " + "0" * (n % 3000) + "2"])


TOKENS = ["a", "B", ".", "(", ")", "|", "*", "+", "?", "{", "}", "0", "2", ",", "[", "^", "-", "]", "<", ">", ":", "_", "'", "!", " ", "/", "=", "#", ";", "é"]
SCRIPT_LINES = ["X=a", "X = b!1", "XY=X.", "X", "XYX", "#words 2", "#words 3", "#limit 7", "// X", "#quiet", "#wordlist", "#dict X", ""]


def small(tier):
    """All small texts: of few tokens, and of few lines of a few kinds"""
    n, m = (2, 2) if tier == "quick" else (3, 4)
    out = ["".join(t) for k in range(n + 1) for t in itertools.product(TOKENS, repeat=k)]
    out += ["\n".join(t) for k in range(2, m + 1) for t in itertools.product(SCRIPT_LINES, repeat=k)]
    rng = random.Random(f"{lib.SEED}/C09/small")
    if tier == "quick":
        out += ["\n".join(rng.choice(SCRIPT_LINES) for _ in range(rng.choice([3, 4]))) for _ in range(1500)]
    out += ["".join(rng.choice(TOKENS) for _ in range(rng.choice([3, 3, 4, 5]))) for _ in range(2500 if tier == "quick" else 10000)]
    return [{"op": "parse", "query": q} for q in out]


def run(prop, tier, rep, scratch):
    (binary,) = lib.build()
    n = 18000 if tier == "quick" else 90000
    step = 6000
    rep.cov["rule"] = ("all texts of few tokens or lines, and random scripts and expressions, some with random errors, "
                       "read by the code and by spec/Script.tla")
    todo = small(tier)
    rep.count("small_texts", len(todo))
    for start in range(-(len(todo) // step + 1) * step, n, step):
        rng = random.Random(f"{lib.SEED}/C09/{start}")
        cases = []
        if start < 0:
            cases = [dict(c, id=i) for i, c in enumerate(todo[max(0, -start - step):-start])]
        while start >= 0 and len(cases) < step:
            i = len(cases)
            r = rng.random()
            if r < 0.02:
                c = {"id": i, "op": rng.choice(["parse", "expr"]), "query": nested(rng)}
            elif r < 0.03 and i < 4000:
                c = {"id": i, "op": "parse", "query": large(rng)}
            elif r < 0.75:
                c = {"id": i, "op": "parse", "query": script(rng)}
            else:
                q = expression(rng)
                if rng.random() < 0.2:
                    q = mutated(rng, q, rng.choice([1, 2]))
                c = {"id": i, "op": "expr", "query": q.replace("\n", " ")}
            cases.append(c)
        recs = lib.run_driver(binary, cases, scratch, tag=f"d{start}")
        out, by = [], {}
        for c in cases:
            r = recs[c["id"]]
            by[str(c["id"])] = c
            bad = next((k for k in ("panic", "crash", "hang") if k in r), None)
            if bad:
                rep.violation(f"reading {c['query']!r}: {bad}: {r[bad]}", {"case": c, "record": r})
                continue
            x = {"id": c["id"], "kind": "query" if c["op"] == "parse" else "expression", "query": lib.codes(c["query"]),
                 "rejected": "reject" in r, "line": r.get("line", 0)}

            def shown(e):
                return {"t": lib.codes(e["text"]), "wb": e["wb"], "pu": e["pu"], "fz": e["fz"]}
            if "ok" in r:
                g = r["ok"]
                x["got"] = {"exprs": [shown(e) for e in g["exprs"]], "words": g["words"], "limit": g["limit"], "hasdict": g["hasdict"],
                            "dict": lib.codes(g["dict"]), "quiet": g["quiet"], "haswl": g["haswl"],
                            "wl": [{"t": lib.codes(w["t"]), "r": w["r"], "s": w["s"], "c": w["c"]} for w in g["wl"]]}
            elif "got" in r:
                x["got"] = shown(r["got"])
            else:
                x["got"] = 0
            out.append(x)
        acc, rej, t = lib.validate("ScriptTrace", out, scratch, tag=f"t{start}")
        rep.add_tlc(t)
        rep.count("traces_validated_against_impl", len(acc))
        rep.count("refused", sum(x["rejected"] for x in out))
        rep.count("single_expressions", sum(x["kind"] == "expression" for x in out))
        rep.count("expressions_shown", sum(len(x["got"]["exprs"]) for x in out if x["kind"] == "query" and not x["rejected"]))
        for k, why in rej.items():
            rep.violation(f"{by[k]['op']} {by[k]['query']!r}: {why}", {"case": by[k], "record": recs[by[k]["id"]], "why": why})
        for x in out[:3]:
            rep.sample({"query": by[str(x["id"])]["query"], "refused": x["rejected"]})
        if rep.violations:
            break
