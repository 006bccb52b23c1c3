"""C16: progress reports."""
import random
import re

import evalcheck
import gens
import lib
import profiles
from c_interrupt import sched


def report(text):
    return {"pc": [int(x) for x in re.findall(r"(-?\d+)\s?%", text)],
            "done": re.search(r"\b(done|complete|completed|finished)\b", text, re.I) is not None}


def problem(rng, i):
    """A case, and the cap on its responses"""
    r = rng.random()
    if r < 0.12:
        return profiles.phrases(rng, i, [(30, 2), (12, 3), (6, 4), (2, 8), (1, 9)])
    if r < 0.24:
        return profiles.ordered(rng, i)
    if r < 0.34:
        return profiles.conjunctions(rng, i)
    if r < 0.4:
        return profiles.singles(rng, i)
    if r < 0.6:
        # several hundred words, read in several pieces
        al = "abc"
        ts = gens.all_strings(al, 4) + ["".join(rng.choice(al) for _ in range(rng.randint(5, 8))) for _ in range(rng.choice([150, 600, 1500]))]
        q = rng.choice([gens.G(rng, al).expr(1), ".*a", "(..)*", "b.*", ".{5}", "[ab]*;.*c?a", "z", ".*;.*b"])
        return {"id": i, "words": gens.make_words(rng, ts, rng.choice([(0,), (0, 1), (0, 9, 255)])),
                "query": q + "\n#words %d\n#limit 700" % rng.choice([1, 1, 2, 3])}
    if r < 0.8:
        # searches which are too long to end: many words, many phrases, sizes beyond 64 bits
        al = rng.choice(["ab", "abcdef"])
        k = rng.choice([3, 20, 200, 1000])
        ts = ["".join(rng.choice(al) for _ in range(rng.randint(1, 6))) for _ in range(k)]
        q = rng.choice([".*", "(.*z)?.*", ".{5,}", "(..)*;.(..)*", ".*;.*a", "(..)+;.*b!1", ".{30}", ".{2,200}", "(a|b).*", "(.{7})*"])
        return {"id": i, "words": gens.make_words(rng, ts, rng.choice([(0,), (0, 1), (0, 3, 7, 200), (254, 255)])),
                "query": q + "\n#words %d\n#limit %d" % (rng.choice([2, 5, 10, 40, 120]), rng.choice([300, 100000]))}
    if r < 0.9:
        # next to nothing
        ws = gens.make_words(rng, rng.sample(["a", "b", "ab", "ba", "a'b", "'"], rng.choice([0, 1, 1, 2, 3])), (0, 5))
        q = rng.choice([".*", "a", "", "a*", "ab|ba", ".*;b*", "x", "(ab)*", "'", "' !'", "a!1"])
        return {"id": i, "words": ws, "query": q + "\n#words %d" % rng.choice([0, 1, 2, 3, 10]) +
                rng.choice(["", "\n#limit 0", "\n#limit 1", "\n#limit 3"])}
    # a single phrase, or few
    al = "abc"
    ws, d = profiles._phrase_words(rng, al, [(5, 3), (8, 2), (3, 4)])
    ts = [w[0] for w in ws if all(c in gens.LET for c in w[0])] or ["a"]
    return {"id": i, "words": ws, "query": "".join(rng.choice(ts) for _ in range(rng.randint(1, 3))) + "\n#words %d" % d}


def run(prop, tier, rep, scratch):
    (binary,) = lib.build()
    n = 900 if tier == "quick" else 9000
    step = 900
    rep.cov["rule"] = ("evaluations in which the progress is asked for at every point, against evaluations of the same problems in "
                       "which it never is; with and without deadlines")
    for start in range(0, n, step):
        rng = random.Random(f"{lib.SEED}/C16/{start}")
        refs = []
        for i in range(step):
            c = problem(rng, f"r{start + i}")
            refs.append({**c, "op": "eval", "cap": rng.choice([150, 400]), "after": 0, "sched": ["p"] * 30 + ["20000"], "maxtimeouts": 300})
        recs = lib.run_driver(binary, refs, scratch, tag=f"r{start}")
        second = []
        for c in refs:
            rec = recs[c["id"]]
            if evalcheck.broken(rec):
                rep.violation(f"query {c['query']!r}: {evalcheck.broken(rec)}", {"case": c, "record": rec})
            elif "reject" not in rec:
                s = ["n"] if rng.random() < 0.3 else ["p"] * 30 + ["n"] if rng.random() < 0.3 else sched(rng)
                if rec["capped"]:
                    s = ["20000" if x == "n" else x for x in s]
                second.append({**c, "progress": True, "after": 1, "sched": s, "cap": c["cap"] if rec["capped"] else 100000})
        recs2 = lib.run_driver(binary, second, scratch, tag=f"s{start}")
        cases, by_id = [], {}
        for c in second:
            rec, ref = recs2[c["id"]], recs[c["id"]]
            by_id[str(c["id"])] = c
            if evalcheck.broken(rec):
                rep.violation(f"query {c['query']!r}: asked for its progress: {evalcheck.broken(rec)}", {"case": c, "record": rec})
                continue
            if rec["nexpr"] == 0:
                continue
            ev = [{"k": x["k"], "w": [w["t"] for w in x["w"]] if x["k"] == "M" else [], "p": [report(t) for t in x["p"]]}
                  for x in rec["resp"]]
            if not rec["capped"]:
                ev[-1]["p"] += [report(t) for t in rec["end"]]
            cases.append({"id": c["id"], "words": [w[0] for w in c["words"]] or ["-"], "events": ev, "cut": rec["capped"],
                          "refcut": ref["capped"], "ref": [[w["t"] for w in x["w"]] for x in ref["resp"] if x["k"] == "M"]})
        if cases:
            acc, rej, r = lib.validate("ProgressTrace", cases, scratch, tag=f"t{start}")
            rep.add_tlc(r)
            rep.count("traces_validated_against_impl", len(acc))
            rep.count("reports_checked", sum(len(e["p"]) for c in cases for e in c["events"]))
            for k, why in rej.items():
                c = by_id[k]
                rep.violation(f"query {c['query']!r} words {[w[0] for w in c['words'][:20]]}: {why}",
                              {"case": c, "record": recs2[c["id"]], "why": why})
            for c in cases[:2]:
                rep.sample(evalcheck.describe(by_id[str(c["id"])]))
        if rep.violations:
            break
