"""C10: words are reduced to letters uniformly."""
import os
import random
import re

import lib

LATIN = "éÉèñÑüÜßøØłŁæÆœŒıİſžčçÇĳĲǆǅﬁﬂﬀﬃﬄﬅꟻ½№™ℌ①ⓐⒶ𝐀𝒷Ａｂｚ'ʼn"
MARKS = "\u0300\u0301\u0308\u0323\u0327\u0328\u20dd\u0345\u093e\u05b0\ufe0f\u3099"
OTHER = "жЖλΛΣςσא日本한글가각かな٣९😀\u200b\ufeff\u00a0\u3000\u2009\u2028\u0085\u00ad\u2019\u2010\u02bc\u1100\u1161\u11a8\U0001d15e"


def assigned():
    text = open(os.path.join(lib.SPEC, "CharTable.tla")).read()
    text = text[text.index("Assigned =="):]
    out = []
    for a, b in re.findall(r"<<(\d+), (\d+)>>", text):
        out += [c for c in range(int(a), int(b) + 1) if not 0xd800 <= c < 0xe000]
    return out


def text(rng, cps, n):
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(chr(rng.randint(0, 127)) if r < 0.3 else rng.choice("abcXYZ ") if r < 0.5 else rng.choice(LATIN) if r < 0.65
                   else rng.choice(MARKS) if r < 0.75 else rng.choice(OTHER) if r < 0.85
                   else chr(rng.choice(cps[128:12000])) if r < 0.95 else chr(rng.choice(cps)))
    return "".join(out)


def run(prop, tier, rep, scratch):
    (binary,) = lib.build()
    cps = assigned()
    rng = random.Random(f"{lib.SEED}/C10")
    batches = []
    # every character on its own
    for k in range(0, len(cps), 500):
        batches.append([chr(c) for c in cps[k:k + 500]])
    alone = len(batches)
    rep.cov["rule"] = "every character of Unicode 13 on its own (exhaustive), and random texts"
    # the interesting ones between others
    for k in range(0, 12000 if tier == "quick" else len(cps), 500):
        batches.append([rng.choice(["a", "Q", "e\u0301", "\u1100", "I", " "]) + chr(c) + rng.choice(["z", "\u0327", "\u1161", "S", ""]) for c in cps[k:k + 500]])
    n = 8000 if tier == "quick" else 200000
    lens = [0, 1, 2, 3, 4, 5, 8, 13, 14, 15, 16, 17, 18, 31, 32, 33, 64, 100]
    for k in range(0, n, 200):
        batches.append([text(rng, cps, rng.choice(lens)) for _ in range(200)])
    cases = [{"id": i, "op": "norm", "texts": b, "r": rng.choice([0, 1, 7, 255]), "s": rng.choice([0, 1, 5, 999999999])} for i, b in enumerate(batches)]
    recs = lib.run_driver(binary, cases, scratch)
    out = []
    for c in cases:
        r = recs[c["id"]]
        bad = next((k for k in ("panic", "crash", "hang") if k in r), None)
        if bad:
            rep.violation(f"a word made of one of {c['texts'][:8]}...: {bad}: {r[bad]}", {"case": c, "record": r})
            continue
        out.append({"id": c["id"], "r": c["r"], "s": c["s"], "texts": [lib.codes(t) for t in c["texts"]],
                    "got": [{"t": lib.codes(w["t"]), "r": w["r"], "s": w["s"], "c": w["c"]} for w in r["got"]]})
    acc, rej, t = lib.validate("NormTrace", out, scratch)
    rep.add_tlc(t)
    rep.count("traces_validated_against_impl", len(acc))
    rep.count("characters_alone", sum(len(b) for b in batches[:alone]))
    rep.count("texts", sum(len(b) for b in batches[alone:]))
    for b in batches[-3:]:
        rep.sample(b[0])
    for k, why in rej.items():
        rep.violation(f"words of texts: {why}", {"case": cases[int(k)], "why": why})
