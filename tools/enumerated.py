"""Expressions enumerated by spec/GenLanguage.tla, with everything they match, replayed in the real code."""
import json
import random
import re

import gens
import lib

ATOMS, OPERATORS = 7, 11
L1 = OPERATORS * ATOMS * ATOMS
L2 = OPERATORS * L1 * L1
AB = [x + y + z for x in "ab" for y in ["", "a", "b"] for z in ["", "a", "b"] if y or not z]
LISTS = {"C01": [sorted(AB) + ["c", "aaaa", "abab", "bbaa", "a'b", "'", "a'", "a b"]],
         "C02": [["a", "aa", "ab", "b", "ba", "c", "bb", "aba", "a'b", "cab"], ["ab", "abc", "a", "ca"]],
         "C04": [["a", "b", "ab"], ["a", "ba", "c", "a'b"], ["aa", "b"]],
         "C05": [["a", "aa", "ab", "b", "ba", "c", "bb", "aba", "a'b", "cab"], ["a", "b", "ab", "c"]]}


def plan(prop, tier, rng):
    """[(expressions, depth, words)]"""
    def expr(level, n=None, fz=0):
        return {"level": level, "n": rng.randrange([ATOMS, L1, L2, L2][level]) if n is None else n, "m": rng.randrange(L2), "o": rng.randrange(OPERATORS), "fz": fz}

    def some():
        return expr(rng.choice([1, 2, 2, 2, 3]))
    out = []
    n = {"C01": (700, 14000), "C02": (500, 6000), "C04": (500, 12000), "C05": (700, 14000)}[prop][tier != "quick"]
    if prop in ("C01", "C04"):
        # all expressions of level 1 (one of each kind with other operands does for quick runs of C04)
        out += [([expr(1, i)], 1 if prop == "C01" else 2, rng.choice(LISTS[prop])) for i in range(L1) if prop == "C01" or tier != "quick" or rng.random() < 0.4]
    for _ in range(n):
        ws = rng.choice(LISTS[prop])
        if prop == "C01":
            out.append(([some()], 1, ws))
        elif prop == "C02":
            e = some()
            e["fz"] = rng.choice([1, 1, 2, 3])
            out.append(([e], rng.choice([1, 1, 2]), ws))
        elif prop == "C04":
            out.append(([some()], rng.choice([2, 2, 3]), ws))
        else:
            es = [some() for _ in range(rng.choice([2, 2, 3]))]
            if rng.random() < 0.15:
                es[0]["fz"] = 1
            out.append((es, rng.choice([1, 2]) if len(ws) < 6 else 1, ws))
    return out


def run(prop, tier, rep, scratch, binary):
    rng = random.Random(f"{lib.SEED}/{prop}/enumerated")
    todo = plan(prop, tier, rng)
    cases = [{"id": i, "exprs": es, "depth": d, "words": [lib.codes(w) for w in ws]} for i, (es, d, ws) in enumerate(todo)]
    path = scratch.path("enumerated.ndjson")
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    r = lib.tlc("GenLanguage", scratch, env={"CASES": path})
    rep.add_tlc(r)
    if "WRONG" in r.out:
        raise lib.ToolError("the specification contradicts itself: " + r.out[r.out.index("WRONG"):][:3000])
    want, runs = {}, []
    for line in r.prints:
        cid, rest = line.split(" ", 1)
        cid = int(cid)
        i = rest.index(">>> {") + 3 if ">>> {" in rest else rest.index(">> {") + 2
        es, d, ws = todo[cid]
        texts = ["".join(map(chr, map(int, re.findall(r"\d+", t)))) for t in re.findall(r"<<([\d, ]+)>>", rest[:i])]
        want[cid] = sorted(" ".join(ws[int(k) - 1] for k in re.findall(r"\d+", p)) for p in re.findall(r"<<([\d, ]+)>>", rest[i:]))
        q = "\n".join(t + (" !%d" % e["fz"] if e["fz"] else "") for t, e in zip(texts, es)) + "\n#words %d\n#limit 1000000" % d
        tr = [rng.choice([0, 0, 1, 2]) for _ in ws]
        runs.append({"id": cid, "op": "eval", "query": q, "words": gens.sort_words([[w, t, 0] for w, t in zip(ws, tr)]), "sched": ["n"], "cap": 1000000, "after": 0})
    if len(want) != len(cases):
        raise lib.ToolError("GenLanguage answered %d of %d cases\n" % (len(want), len(cases)) + r.out[-2000:])
    recs = lib.run_driver(binary, runs, scratch, tag="enum")
    for c in runs:
        rec = recs[c["id"]]
        rep.count("enumerated_expressions_replayed")
        rep.count("enumerated_matches", len(want[c["id"]]))
        bad = next((k for k in ("panic", "crash", "hang", "reject") if k in rec), None)
        if bad:
            rep.violation(f"query {c['query']!r}: {bad}: {rec[bad]}", {"case": c, "record": rec})
            continue
        got = sorted(" ".join(w["t"] for w in x["w"]) for x in rec["resp"] if x["k"] == "M")
        if got != want[c["id"]]:
            less = [x for x in want[c["id"]] if x not in got]
            more = [x for x in got if x not in want[c["id"]]]
            rep.violation(f"query {c['query']!r} words {[w[0] for w in c['words']]}: not found {less[:20]}, wrongly found {more[:20]}"
                          + ("" if less or more else " (found more than once)"), {"case": c, "expected": want[c["id"]], "got": got})
    rep.count("traces_validated_against_impl", len(runs))
