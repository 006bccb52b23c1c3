"""C11: loading a word list."""
import os
import random

import lib
from c_norm import text as unicode_text, assigned

LINES = ["I", "a", "A", "i", "b", "é", "ß", "", " ", "_", "'", "''", "it's", "a b", "apple", "Apple", "éclair", "1", "1st", "x2", "ab1c", "日本",
         "5\tapple", "0\tzero", "7\t7up", "12\tI", "3\ta", "3\tb", "4294967295\tbig", "4294967296\tbigger", "+5\tplus", "-5\tminus", "5 \tspace",
         "\tx", "\tword", "1\t", "1\t2\tab", "1\t2\t3", "abc\tdef", "٣\tarab", "ab\t", "99999999999999\thuge", "000012\tzeros", "ﬁ", "№", "e\u0301",
         "\u0301", "\ufeffbom", "9\tApple", "5\tapple", "+\tplus", "٣٣", "½½", "²x", "x\u00a0y", "word\r", "a\r", "//", "#words", "  pad  ", "ZZ", "\x00ab", "a\x0bb", "x\u2028y"]
BAD = [b"\xff", b"ab\x80", b"\xc3", b"\xc0\xafx", b"\xe0\x80\x80", b"\xed\xa0\x80ab", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"5\tab\xfe", b"\xe2\x82", b"\xf0\x9f\x98"]


def small(rng, cps):
    out = b""
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 30])
    for i in range(n):
        r = rng.random()
        if r < 0.55:
            b = rng.choice(LINES).encode()
        elif r < 0.65:
            b = rng.choice(BAD)
        elif r < 0.8:
            b = unicode_text(rng, cps, rng.choice([1, 2, 3, 6, 20])).replace("\n", "").encode("utf-8", "ignore")
        elif r < 0.9:
            b = ("".join(rng.choice("abcAZ'") for _ in range(rng.randint(1, 5)))).encode()
        else:
            b = (str(rng.choice([0, 1, 5, 200, 4294967295, rng.randint(0, 2 ** 33)])) + "\t" + "".join(rng.choice("abc") for _ in range(rng.randint(0, 3)))).encode()
        out += b + (b"" if i == n - 1 and rng.random() < 0.5 else rng.choice([b"\n", b"\n", b"\r\n"]))
    if rng.random() < 0.03:
        out += b"x" * rng.choice([200, 700])
    return out


def large(rng, n):
    """Different words, with lines which are not kept in between: the bytes, and the word on each line"""
    seen, words, out = set(), [], []
    while len(words) < n:
        r = rng.random()
        if r < 0.03:
            words.append(None)
            out.append(rng.choice(["7", "b", "", "x1", "3\tq9"]))
            continue
        w = "".join(rng.choice("abcdefghij") for _ in range(rng.choice([5, 6, 6])))
        if rng.random() < 0.1:
            w = rng.choice([w.capitalize(), w + "'", "é" + w])
        if w in seen:
            continue
        seen.add(w)
        words.append(w)
        out.append(w if rng.random() < 0.5 else "%d\t%s" % (rng.randint(0, 10 ** 6), w))
    return "\n".join(out).encode() + rng.choice([b"\n", b""]), words


def run(prop, tier, rep, scratch):
    (binary,) = lib.build()
    cps = assigned()
    rng = random.Random(f"{lib.SEED}/C11")
    n = 2500 if tier == "quick" else 30000
    rep.cov["rule"] = "random small files (byte level), large files of several tranches, compressed files, unreadable files"
    cases, info = [], {}

    def add(data, name="words.txt", readable=True, words=None, **kw):
        i = len(cases)
        p = scratch.path(f"f{i}-{name}")
        raw = scratch.path(f"f{i}.raw") if "zst" in kw else p
        if data is not None:
            with open(raw, "wb") as f:
                f.write(data)
        if "zst" in kw:
            kw["zst"] = raw
        cases.append({"id": i, "op": "load", "path": p, **kw})
        info[i] = (data or b"", readable, words)
    sizes = [10000, 10001, 10002, 25003, 26500, 48000] if tier == "quick" else [9999, 10000, 10001, 10002, 25002, 25003, 47600, 82000]
    for k in sizes:
        data, words = large(rng, k + (300 if k == 26500 else 0))
        if k in (10000, 10001, 10002, 25002, 25003):     # exactly so many words are kept
            data, words = large(rng, 2 * k)
            lines = data.decode().split("\n")
            m = c = 0
            while c < k:
                c += words[m] is not None
                m += 1
            # the last one decides where the count of its tranche ends
            data, words = "\n".join(lines[:m]).encode() + b"\n", words[:m]
        add(data, words=words, **({"zst": ""} if k == 25003 else {}), name="big.zst" if k == 25003 else "big.txt")
    for k in range(n):
        d = small(rng, cps)
        r = rng.random()
        if r < 0.8:
            add(d, name=rng.choice(["words.txt", "words", "words.zst.txt", "w.x.tsv"]))
        elif r < 0.9:
            add(d, name="words.zst", zst="", two_frames=rng.random() < 0.3)
        elif r < 0.93:
            d = b"".join(small(rng, cps) for _ in range(4)) or b"apple\n"
            add(d, name="cut.zst", readable=False, zst="", cut=rng.choice([1, 2, 3, 5, 8]))
        elif r < 0.95:
            add(d or b"x", name="flip.zst", readable=False, zst="", flip=rng.randint(0, 3))
        elif r < 0.96:
            add(None, name=rng.choice(["missing", "missing.zst"]), readable=False)
        elif r < 0.97:
            os.mkdir(scratch.path(f"f{len(cases)}-" + "dir"))
            add(None, name="dir", readable=False)
        elif r < 0.98:
            os.mkdir(scratch.path(f"f{len(cases)}-" + "dir.zst"))
            add(None, name="dir.zst", readable=False)
        else:
            add(b"plain text\n" + d, name="plain.zst", readable=False)
    recs = lib.run_driver(binary, cases, scratch)
    out = []
    for c in cases:
        r = recs[c["id"]]
        data, readable, words = info[c["id"]]
        what = f"{os.path.basename(c['path'])} ({len(data)} bytes: {data[:120]!r})"
        bad = next((k for k in ("panic", "crash", "hang") if k in r), None)
        if bad:
            rep.violation(f"loading {what}: {bad}: {r[bad]}", {"case": c, "bytes": list(data), "record": r})
            continue
        got = r.get("words", [])
        place = []
        if words:
            at = {w["t"]: i + 1 for i, w in enumerate(got)}
            place = [at.get(w, 0) if w else 0 for w in words]
        out.append({"id": c["id"], "bytes": list(data), "readable": readable, "refused": "reject" in r, "place": place,
                    "got": [{"t": lib.codes(w["t"]), "r": w["r"], "s": [w["s"] // 100000, w["s"] % 100000], "c": w["c"]} for w in got]})
    acc, rej, t = lib.validate("LoadTrace", out, scratch, heap="8g")
    rep.add_tlc(t)
    rep.count("traces_validated_against_impl", len(acc))
    rep.count("unreadable", sum(not x["readable"] for x in out))
    rep.count("words_loaded", sum(len(x["got"]) for x in out))
    for x in out[len(sizes):len(sizes) + 4]:
        rep.sample({"bytes": repr(info[x["id"]][0]), "words": len(x["got"])})
    for k, why in rej.items():
        c = cases[int(k)]
        data = info[int(k)][0]
        rep.violation(f"loading {os.path.basename(c['path'])} {data[:300]!r}: {why[:900]}", {"case": c, "bytes": list(data[:5000]), "why": why[:5000]})
