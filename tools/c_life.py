"""C15: every query is refused or completes, whatever it is and whatever the words are."""
import random

import c_read
import evalcheck
import gens
import lib
import profiles
from c_interrupt import sched

TOKENS = (list("abzAZ019.'_-,;|=<>()[]{}^!?*+:/#\n\t \\\"") + ["\r\n", "//", "--", "/*", "*/", ":^)", ":-)", ":+)", "!_", "!'", "!1", "[^", "{1,2}", "{,3}", "#words ",
          "#limit ", "#dict ", "#quiet", "#wordlist", "(a|", "é", "ß", "日", "\u0301", "\U0001f600", "\x00", "\u00ad", "\ufeff", "65535", "65536",
          "4294967296", "18446744073709551616", "1000", "X=", "[a-z]", "<abc>", "<ab+1>"])


def garbage(rng):
    r = rng.random()
    if r < 0.5:
        return "".join(rng.choice(TOKENS) for _ in range(rng.choice([1, 2, 3, 5, 8, 13, 30, 100])))
    if r < 0.6:
        return "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(32, 127), rng.randrange(0xd800), rng.randrange(0xe000, 0x110000)]))
                       for _ in range(rng.randint(1, 30)))
    if r < 0.75:
        return c_read.mutated(rng, c_read.script(rng), rng.choice([1, 2, 4, 10]))
    if r < 0.9:
        return c_read.script(rng)
    return c_read.nested(rng)


def number(rng, most):
    return rng.choice([0, 1, 2, 3, 7, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 1000])  % (most + 1)


def extreme(rng, long=False):
    """Large numbers of everything, but no more than a search can be set up with in a few seconds"""
    r = rng.random()
    if long:
        r = 0.5 + r / 2
    if r < 0.25:
        n, m = number(rng, 600), number(rng, 600)
        a, b = min(n, m), max(n, m)
        return rng.choice(["a{%d}" % n, "(ab?){%d,%d}" % (a // 2, b // 2), "(a|b*){,%d}" % (b // 4), "(.{%d}:^)" % 1 + "." * (b // 8), "%d" % n, "a{%d,}" % n,
                           "(" + "ab" * (b // 8) + ":^)", "(" + "ab" * (b // 8) + ":-)", "(" + "ab" * (b // 8) + ":+)", "((a{3}){7}){%d}" % (n // 40),
                           "(a*|b*|c*){%d}" % (n // 8), "(a?){%d}" % (n // 2), "a{0}b{%d}" % n, "(.?b?){%d}" % (n // 8)])
    if r < 0.45:
        return rng.choice(["a", "ab", "", "(ab)*", ".*", "a?b?", "<ab>", "'", "(a*b){9}"]) + "!%d" % rng.choice([1, 2, 10, 15, 16, 31, 32, 33, 255, 256, 1000])
    if r < 0.6:
        k = rng.choice([1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130])
        return rng.choice(["\n", ";"]).join(rng.choice(["a*b*", ".*", "(a|b)*", "a", ".*!1", "[ab']*", "_*", "(.*:^)"][:rng.choice([1, 2, 8])]) for _ in range(k))
    if r < 0.75:
        b = "".join(rng.choice("aabcdz") for _ in range(rng.choice([1, 2, 3, 6, 12, 20, 40])))
        return "<%s%s>" % (b, rng.choice(["", "+", "-", "+%d" % number(rng, 40 if long else 300), "-%d" % number(rng, 400)])) + rng.choice(["", "", "*", "{2}", "!1", "!3", "{0}", "?b"])
    if r < 0.85:
        return rng.choice([q for q in ["a{65535}", "a{65536}", "a{99999999999999999999}", "a!65536", "a!99999999999999999999", "a{5,4}", "65535", "99999999999", "<a+65535>",
                           "<a-65535>", "<a+65536>", "<a-99999999999>", "a{0,65535}", "((a{60}){60}){60}", "(a{255}){255}", "a{16384}", "a{100}!300", "%s!65535" % ("ab" * 700), "a!65535", "((((a*)*)*)*)*",
                           "(((a?)*|b*)+)*", "a{4000}!65535", "[^a-z]", "[^a-z]*", "[^a-z']", "(([^a-z])*)*!1", "a[^a-z]b|c"] if not (long and q in ("a!65535", "a{100}!300"))])
    if r < 0.92:
        return rng.choice(["_", "_*", "a_b", "_a", "a__b", "__", "[a_]*", "'", "''", "'*!'", "_!_", "a!_", "a!'", "!_", "a !_!'!2", ".*_.*_.*", "(_:^)", "<a_>", "_{100}"])
    return rng.choice(["A=%s" % ("b" * 1000) + "\n%s" % ("A" * rng.choice([1, 3, 70])), "[%s]" % (gens.LET * 20), "a|" * 200 + "b", "a//" + "x" * rng.choice([65533, 65534]),
                       " " * 2000 + "a", "#words " + "0" * 2000 + "2\na", "(" * rng.choice([30, 100, 101]) + "a" + ")*" * 101])


def texts(rng, long):
    r = rng.random()
    if r < 0.1:
        return []
    if r < 0.25:
        return rng.choice([[""], ["'"], ["", "'", "-", " ", "_"], ["''''", "a"], ["\u0301"], ["日本", "a'b", "--"], [" a", "a ", "a b"], ["a"] * 5])
    if r < 0.4:
        n = rng.choice([63, 64, 65, 255, 256, 257, 1000, 5000, 20000] if long else [15, 16, 30, 63])
        return ["a" * n, "ab" * (n // 2), "a" * (n - 1) + "b", "a" * (n // 2), "b"][:rng.randint(1, 5)]
    if r < 0.5:
        return ["".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(1, 0x250), rng.randrange(0xd800), rng.randrange(0xe000, 0x110000)]))
                        for _ in range(rng.randint(0, 8))) for _ in range(rng.randint(1, 20))]
    if r < 0.6:
        return gens.all_strings("abc", 5)
    if r < 0.7:
        k = rng.choice([128, 512, 2000])
        return ["".join(rng.choice("abcde'") for _ in range(rng.randint(1, 6))) for _ in range(k)]
    return [x for x in ["a", "b", "ab", "ba", "aab", "abc", "I", "zz", "it's", "e'e", "naïve", "Ünder", "a b"] if rng.random() < 0.6]


def problem(rng, i):
    r = rng.random()
    # (very long words, or very large tables for every letter)
    long = rng.random() < 0.2
    q = garbage(rng) if r < 0.4 else extreme(rng, long)
    if r > 0.9:
        q = "\n".join([q] + [extreme(rng, long) if rng.random() < 0.5 else garbage(rng) for _ in range(rng.randint(1, 3))])
    if rng.random() < 0.5:
        q += rng.choice(["\n", ";"]) + "#words " + rng.choice(["0", "1", "2", "3", "5", "30", "200", "999", "1000", "1001", "4294967296", "99999999999999999999"])
    if rng.random() < 0.3:
        q += rng.choice(["\n", ";"]) + "#limit " + rng.choice(["0", "1", "2", "100", "4294967295", "18446744073709551615", "18446744073709551616"])
    if rng.random() < 0.06:
        q += "\n#wordlist" + "".join("\n" + t for t in texts(rng, long)[:40])
    ws = gens.make_words(rng, texts(rng, long), rng.choice([(0,), (0, 1), (0, 255), (255,), (254, 255), tuple(range(256))]))
    if rng.random() < 0.2:
        ws = gens.sort_words([(t, tr, rng.choice([0, 1, 2 ** 31 - 1])) for t, tr, _ in ws])
    c = {"id": i, "op": "eval", "words": ws, "query": q, "after": 3, "progress": rng.random() < 0.3}
    if rng.random() < 0.1:
        c["setdepth"] = rng.choice([0, 1, 2, 60, 1000])
    if rng.random() < 0.1:
        c["setlimit"] = rng.choice([0, 1, 300, 2 ** 31 - 1])
    return c


def run(prop, tier, rep, scratch):
    (binary,) = lib.build()
    n = 2400 if tier == "quick" else 30000
    step = 2400
    rep.cov["rule"] = ("queries which are garbage, ordinary or extreme, with lists which are empty, odd, of very long words or large; "
                       "called until they are complete, or for a number of timeouts, within 4 GB of memory")
    for start in range(0, n, step):
        rng = random.Random(f"{lib.SEED}/C15/{start}")
        cases = []
        for i in range(step):
            c = problem(rng, start + i)
            s = sched(rng) if rng.random() < 0.5 else ["p", "2000"]
            cases.append({**c, "sched": [x if x != "n" else "1000" for x in s], "cap": rng.choice([5, 40, 200]), "maxtimeouts": rng.choice([3, 20, 60])})
        # those which are small enough to be completed
        for i in range(step // 8):
            c = rng.choice([profiles.phrases, profiles.singles, profiles.conjunctions])(rng, f"w{start + i}")
            cases.append({**c, "op": "eval", "after": 3, "sched": rng.choice([["n"], ["n"], sched(rng)]), "cap": 100000})
        recs = lib.run_driver(binary, cases, scratch, tag=f"d{start}", case_timeout=120, memory=4 << 30)
        rep.count("refused", sum("reject" in x for x in recs.values()))
        rep.count("completed", sum("reject" not in x and not x.get("capped") for x in recs.values()))
        rep.count("still_going", sum(bool(x.get("capped")) for x in recs.values()))
        rep.cov["slowest_s"] = max(rep.cov.get("slowest_s", 0), max(x.get("us", 0) for x in recs.values()) / 1e6)
        evalcheck.validate(rep, scratch, cases, recs, "life", f"t{start}")
        if rep.violations:
            break
