"""C07: limits on results and on words."""
import json
import random

import evalcheck
import gens
import lib
import profiles


def strip(q):
    return "\n".join(x for x in q.split("\n") if not x.startswith("#limit") and not x.startswith("#words"))


def groups(rng, n):
    """Each group: a reference evaluation without limit, and limited ones of the same problem"""
    out = []
    for i in range(n):
        r = rng.random()
        if r < 0.15:
            ws = gens.make_words(rng, [rng.choice(["a", "b", "ab", "cab"])][:1])
            q, d = rng.choice([".*", "(..)*", ".{2,40}", "a*", "(a|b)*"]), 12
        elif r < 0.3:
            al = "ab"
            ws = gens.make_words(rng, ["".join(rng.choice(al) for _ in range(rng.randint(1, 4))) for _ in range(20)], (0, 1))
            q, d = rng.choice([".*", ".{3,}", ".*a", "[ab]*"]), 3
        else:
            c = profiles.ordered(rng, 0) if rng.random() < 0.5 else profiles.phrases(rng, 0)
            ws, q = c["words"], strip(c["query"])
            d = int(c["query"].split("#words ")[1].split("\n")[0])
        out.append((q, d, ws))
    return out


def run(prop, tier, rep, scratch):
    (binary,) = lib.build()
    n = 160 if tier == "quick" else 1800
    step = 160
    rep.cov["rule"] = ("groups of evaluations of one problem: one without a limit on results, the others with limits on "
                       "results or words, from the query, the API or by default")
    for start in range(0, n, step):
        rng = random.Random(f"{lib.SEED}/C07/{start}")
        refs, lim, ref_of = [], [], {}
        nid = 0
        for q, d, ws in groups(rng, step):
            ref = {"id": f"r{nid}", "op": "eval", "query": f"{q}\n#words {d}\n#limit 2500", "words": ws}
            nid += 1
            refs.append(ref)
        recs = lib.run_driver(binary, refs, scratch, tag=f"r{start}")
        second, modes, want = [], {}, {}
        for ref in refs:
            rec = recs[ref["id"]]
            if evalcheck.broken(rec):
                rep.violation(f"query {ref['query']!r}: {evalcheck.broken(rec)}", {"case": ref, "record": rec})
                continue
            if "reject" in rec:
                continue
            ph = evalcheck.phrases(rec)
            q, d = ref["query"].split("\n#words ")[0], int(ref["query"].split("\n#words ")[1].split("\n")[0])
            complete = len(ph) < 2500
            base = {"op": "eval", "words": ref["words"], "after": 2}

            def add(extra, mode, refl, query):
                nonlocal nid
                c = {**base, **extra, "id": f"c{nid}", "query": query}
                nid += 1
                second.append(c)
                modes[c["id"]] = mode
                want[c["id"]] = refl
            total = len(ph)
            ks = {0, 1, 2, total, total + (1 if complete else 0), max(0, total - 1), rng.randint(0, total), rng.randint(0, total)}
            for k in rng.sample(sorted(ks), min(4, len(ks))):
                r = rng.random()
                if r < 0.6:
                    add({}, "stream", ph, f"{q}\n#words {d}\n#limit {k}")
                elif r < 0.75:
                    add({}, "stream", ph, f"#limit {k + 3}\n{q}\n#words {d}\n#LIMIT {k}")
                elif r < 0.9:
                    add({"setlimit": k}, "stream", ph, f"{q}\n#words {d}")
                else:
                    add({"setlimit": k}, "stream", ph, f"{q}\n#words {d}\n#limit {k + 5}")
            # without a limit, there is the default one
            if total > 150 or rng.random() < 0.3:
                add({}, "stream", ph, f"{q}\n#words {d}")
            if complete and total < 900:
                for j in sorted({0, 1, 2, rng.randint(0, d), d - 1, d}):
                    if j < 0:
                        continue
                    r = rng.random()
                    if r < 0.6:
                        add({}, "filter", ph, f"{q}\n#words {j}\n#limit 2500")
                    elif r < 0.8:
                        add({"setdepth": j}, "filter", ph, f"{q}\n#words {j + 2}\n#limit 2500")
                    else:
                        add({"setdepth": j}, "filter", ph, f"{q}\n#limit 2500")
                if d > 10:
                    add({}, "filter", ph, f"{q}\n#limit 2500")   # the default bound on words
        recs2 = lib.run_driver(binary, second, scratch, tag=f"s{start}")
        stream = [c for c in second if modes[c["id"]] == "stream"]
        filt = [c for c in second if modes[c["id"]] == "filter"]
        rep.count("reference_evaluations", len(refs))
        rep.count("limited_by_results", len(stream))
        rep.count("limited_by_words", len(filt))
        for name, cs in (("stream", stream), ("filter", filt)):
            evalcheck.validate(rep, scratch, cs, recs2, name, f"{name}{start}", refs=want)
        if rep.violations:
            break
