"""C08: evaluations which are interrupted by deadlines."""
import random

import evalcheck
import gens
import lib
import profiles


def sched(rng):
    r = rng.random()
    if r < 0.25:
        return ["p", "n"]
    if r < 0.45:
        return ["p"] * rng.randint(1, 4) + ["n"]
    if r < 0.75:
        return [str(rng.choice([0, 1, 3, 10, 30, 100])) for _ in range(rng.randint(1, 6))] + [str(rng.choice([200, 400, 1000]))]
    return [rng.choice(["n", "p", "0", "2", "20", "150"]) for _ in range(rng.randint(2, 8))] + ["1000"]


def sweep(rng, i):
    """Phrases which match are found after a constant number of tries, a power of two"""
    k = rng.choice([32, 64, 128, 256, 256, 256, 512]) - 1
    ts = rng.sample(gens.all_strings(gens.LET[:25], 2)[25:], k - 1) + ["zz"]
    # every two words may be tried, those with "zz" match
    q = rng.choice(["....;..zz", "(..)+;..(zz)+", ".*;(..)*zz"])
    return {"id": i, "op": "eval", "words": gens.make_words(rng, ts), "query": q + "\n#words 2\n#limit 600"}


def funnel(rng, i):
    """Of several hundred words only a few may begin a phrase (or be a part of it which is not the last)"""
    k = rng.choice([2, 2, 3])
    ts = {"".join(rng.choice(gens.LET[1:25]) for _ in range(k)) for _ in range(rng.choice([200, 300, 300, 500]))}
    some = rng.sample(sorted(ts), 4)
    n = rng.choice([1, 2])
    x = rng.choice(["az", "z", "a"] + ["n"] * (k - 1))
    dots = "." * k
    tail = rng.choice([some[0] + some[1], "(%s)" % dots + some[0], some[0] + dots, "(%s)?%s%s" % (some[0], some[1], some[2]), some[0] * 2 + some[1], "(%s|%s)*%s" % tuple(some[:3]),
                       dots * 2 + "z?", "[%s]{%d}" % (some[0] + some[1], 2 * k), "([a-f]%s){2}" % ("." * (k - 1)) + some[3]])
    first = rng.choice([x, x, "(%s|%s)" % (x, some[0]), some[3] + x])
    # the others must not be of no use at all, so that they are tried
    q = rng.choice(["%s%s" % (first, tail), "%s%s|(%s)*;" % (first, tail, dots), "(%s%s|(%s){%d}zz)" % (first, tail, dots, n)])
    if q.endswith(";"):
        q = "%s%s" % (first, tail) + "\n" + rng.choice([".*", "[a-z]*%s" % tail])
    ts = sorted(ts) + [x] + rng.sample(["zz", some[0] + some[1], x + some[0]], 1)
    return {"id": i, "op": "eval", "words": gens.make_words(rng, ts, rng.choice([(0,), (0,), (0, 1)])), "query": q + "\n#words %d\n#limit 1200" % rng.choice([3, 3, 4])}


def run(prop, tier, rep, scratch):
    (binary,) = lib.build()
    n = 320 if tier == "quick" else 2880
    step = 320
    rep.cov["rule"] = ("each problem is evaluated without a deadline, then with schedules of deadlines (none, already passed, "
                       "microseconds ahead); long searches whose deadlines have passed must give control back")
    for start in range(0, n, step):
        rng = random.Random(f"{lib.SEED}/C08/{start}")
        refs = []
        for i in range(step):
            r = rng.random()
            if r < 0.08:
                c = sweep(rng, f"r{i}")
            elif r < 0.25:
                c = funnel(rng, f"r{i}")
            elif r < 0.4:
                c = profiles.ordered(rng, f"r{i}")
            elif r < 0.6:
                c = profiles.phrases(rng, f"r{i}", [(30, 2), (12, 3), (6, 4), (2, 8)])
            elif r < 0.75:
                c = profiles.conjunctions(rng, f"r{i}")
            else:
                # several hundred words, so that the list is read in several pieces
                al = "abc"
                ts = gens.all_strings(al, 4) + ["".join(rng.choice(al) for _ in range(rng.randint(5, 8))) for _ in range(rng.choice([200, 700]))]
                q = rng.choice([gens.G(rng, al).expr(1), ".*a", "(..)*", "b.*", ".{5}", "[ab]*;.*c?a"])
                c = {"id": f"r{i}", "op": "eval", "words": gens.make_words(rng, ts, (0, 1)),
                     "query": q + "\n#words %d\n#limit 700" % rng.choice([1, 2])}
            refs.append({**c, "query": c["query"].replace("#limit 1000000", "#limit 1200")})
        recs = lib.run_driver(binary, refs, scratch, tag=f"r{start}")
        second, want = [], {}
        for c in refs:
            rec = recs[c["id"]]
            if evalcheck.broken(rec):
                rep.violation(f"query {c['query']!r}: {evalcheck.broken(rec)}", {"case": c, "record": rec})
                continue
            if "reject" in rec:
                continue
            ph = evalcheck.phrases(rec)
            for j in range(2):
                d = {**c, "id": f"{c['id']}.{j}", "sched": sched(rng), "after": 3}
                logs = [n for n, x in enumerate(rec["resp"]) if x["k"] == "L"]
                if logs and rng.random() < 0.5:
                    # all deadlines have passed from somewhere in the search for phrases on
                    d.update(sched=["n"] * rng.choice([logs[0] + 1, logs[0] + 1, rng.randint(logs[0] + 1, len(rec["resp"]))]) + ["p"], hold=True)
                second.append(d)
                want[d["id"]] = ph
            if rng.random() < 0.4:
                d = {**c, "id": f"{c['id']}.i", "op": "iter"}
                second.append(d)
                want[d["id"]] = ph
        recs2 = lib.run_driver(binary, second, scratch, tag=f"s{start}")
        rep.count("interrupted_evaluations", len(second))
        rep.count("timeouts_seen", sum(r.get("timeouts", 0) for r in recs2.values()))
        evalcheck.validate(rep, scratch, second, recs2, "stream", f"t{start}", refs=want)
        if rep.violations:
            break
    if not rep.violations:
        prompt(binary, rep, scratch, tier)


def prompt(binary, rep, scratch, tier):
    """Deadlines which have passed: control comes back soon."""
    rng = random.Random(f"{lib.SEED}/C08/prompt")
    cases = []
    for i in range(6 if tier == "quick" else 30):
        k = rng.choice([50, 70, 90])
        ws = gens.make_words(rng, gens.all_strings("abcdefghi", 1) + rng.sample(gens.all_strings("abcdefghi", 2), k))
        # every phrase is a possible beginning of a match for both, none is a match of both
        q = rng.choice(["(..)+;.(..)+", ".(...)*;..(...)*", "(...)+;.(...)+", ".(..)+;(..)+"])
        cases.append({"id": f"q{i}", "op": "eval", "query": f"{q}\n#words 2", "words": ws,
                      "sched": ["p"] * 3 + ["1000000"] + ["p"] * 1_000, "cap": 5000, "after": 1})
    for i in range(6 if tier == "quick" else 20):
        ws = gens.make_words(rng, gens.all_strings("abcdef", 4) + ["z"])
        cases.append({"id": f"w{i}", "op": "eval", "query": "z\n#words 1", "words": ws,
                      "sched": ["p"] + ["n"], "after": 1})
    recs = lib.run_driver(binary, cases, scratch, tag="p")
    evalcheck.validate(rep, scratch, cases, recs, "prompt", "prompt")
