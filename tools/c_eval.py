"""C01-C06: what is found, and in which order."""
import enumerated
import evalcheck
import lib
import profiles

PLAN = {  # profile, view of the machine, cases (quick, thorough)
    "C01": (profiles.singles, "content", 700, 6000),
    "C02": (profiles.fuzzy, "content", 1200, 8000),
    "C03": (profiles.anagrams, "content", 600, 4500),
    "C04": (profiles.phrases, "content", 3000, 16000),
    "C05": (profiles.conjunctions, "content", 2500, 12000),
    "C06": (profiles.ordered_or_deep, "order", 1000, 4000),
}


# models of how the code goes about it, checked against what it is for: (quick, thorough)
MODELS = {
    "C01": ([], [("MCScan", None)]),
    "C04": ([("MCSearch", None)], [("MCSearch", None), ("MCSearch", "MCSearch2x3.cfg")]),
    "C05": ([], [("MCScan", None)]),
    "C06": ([("MCSearch", None)], [("MCSearch", None), ("MCSearch", "MCSearch2x3.cfg")]),
}


def run(prop, tier, rep, scratch):
    fn, mode, quick, thorough = PLAN[prop]
    (binary,) = lib.build()
    n = quick if tier == "quick" else thorough
    rep.cov["rule"] = f"random problems from profiles.{fn.__name__}, checked under the {mode!r} view of Evaluator.tla"
    for module, cfg in MODELS.get(prop, ([], []))[tier != "quick"]:
        lib.model(rep, module, scratch, cfg)
    if prop in enumerated.LISTS:
        enumerated.run(prop, tier, rep, scratch, binary)
    chunk = 1000
    done = 0
    while done < n and not rep.violations:
        k = min(chunk, n - done)
        cases = profiles.make(fn, k, lib.SEED, f"{prop}/{done}")
        recs = lib.run_driver(binary, cases, scratch, tag=f"d{done}")
        rep.count("cases", k)
        rep.count("cases_with_matches", sum(any(x["k"] == "M" for x in r.get("resp", [])) for r in recs.values()))
        rep.count("queries_refused", sum("reject" in r for r in recs.values()))
        evalcheck.validate(rep, scratch, cases, recs, mode, f"t{done}")
        done += k
