"""Evaluations of the real code, recorded and checked against spec/EvalTrace.tla."""
import lib


def spec_words(ws):
    return [{"t": lib.codes(t), "r": r, "s": s} for t, r, s in ws]


def word_ev(w):
    return {"t": lib.codes(w["t"]), "r": w["r"], "s": w["s"], "c": w["c"]}


def phrases(rec):
    return [[word_ev(w) for w in x["w"]] for x in rec["resp"] if x["k"] == "M"]


def events(case, rec):
    ev = []
    for x in rec["resp"]:
        if x["k"] == "M":
            ev.append({"k": "M", "d": x.get("d", "n"), "w": [word_ev(w) for w in x["w"]]})
        elif x["k"] == "T":
            ev.append({"k": "T", "d": x.get("d", "n"), "n": x["n"]})
        elif x["k"] != "P":   # (progress was asked for)
            ev.append({"k": x["k"], "d": x.get("d", "n")})
    for a in rec["after"]:
        ev.append({"k": "A" + a})
    return ev


def spec_case(case, rec, mode, ref=None):
    """The case for EvalTrace, from a driver case and its record."""
    rejected = "reject" in rec
    return {
        "id": case["id"], "mode": mode, "query": lib.codes(case["query"]),
        "words": spec_words(case["words"]),
        "setdepth": case.get("setdepth", -1), "setlimit": case.get("setlimit", -1),
        "rejected": rejected, "cut": bool(rec.get("capped")),
        "events": [] if rejected else events(case, rec),
        "ref": ref if ref is not None else [],
    }


def broken(rec):
    for k in ("panic", "crash", "hang"):
        if k in rec:
            return f"{k}: {rec[k]}"
    return None


def describe(case):
    q = case["query"]
    return {"query": q, "words": case["words"][:12], "nwords": len(case["words"]),
            **{k: case[k] for k in ("setdepth", "setlimit", "sched") if k in case}}


def validate(rep, scratch, cases, recs, mode, tag, refs=None, nontrivial=None):
    """Validate every case; report violations. A case the code could not finish is one."""
    sc, by_id = [], {}
    for c in cases:
        rec = recs[c["id"]]
        by_id[str(c["id"])] = c
        b = broken(rec)
        if b:
            rep.violation(f"query {c['query']!r}: the evaluation failed: {b}", {"case": c, "record": rec})
            continue
        sc.append(spec_case(c, rec, mode, None if refs is None else refs[c["id"]]))
    if not sc:
        return
    acc, rej, r = lib.validate("EvalTrace", sc, scratch, tag=tag)
    rep.add_tlc(r)
    rep.count("traces_validated_against_impl", len(acc))
    rep.count("responses_checked", sum(len(x["events"]) for x in sc))
    rep.count("matches_checked", sum(1 for x in sc for e in x["events"] if e["k"] == "M"))
    rep.count("phrases_checked", sum(1 for x in sc for e in x["events"] if e["k"] == "M" and len(e["w"]) > 1))
    for k, why in rej.items():
        c = by_id[k]
        rep.violation(f"query {c['query']!r} words {[w[0] for w in c['words'][:20]]}: {why}",
                      {"case": c, "record": recs[c["id"]], "why": why})
    for x in sc[:2]:
        c = by_id[str(x["id"])]
        rep.sample({**describe(c), "responses": len(x["events"])})
    return r
