"""C12: bit sets behave as sets of any size."""
import random

import lib

SIZES = [1, 2, 3, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 160, 200]


def build():
    return lib.build("harness-bits", ("noodle-verif-bits",), {"RUSTFLAGS": "--cfg noodle_verif"}, "target-bits")


def case(rng, cid, nops):
    n = rng.choice(SIZES)
    nd = rng.choice([0, 0, 1, 2, 2])
    d = [rng.choice([1, 2, 3, 4, 5])] if nd == 1 else [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4, 5])] if nd == 2 else []
    regs = [{"d": d, "n": n}, {"d": d, "n": n}]
    rows = None
    if nd == 2 and rng.random() < 0.6:
        regs.append({"d": [d[1]], "n": n})
        rows = 2
    regs.append({"d": [], "n": n})
    single = len(regs) - 1
    regs.append({"d": [], "n": n})      # a place for new sets
    spare = len(regs) - 1
    sizes = {spare: n}
    members = [set() for _ in regs]     # only to choose interesting numbers
    pool = sorted({i for i in ([0, n - 1, n // 2, 30, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128] + [rng.randrange(n) for _ in range(3)]) if 0 <= i < n})
    if rng.random() < 0.3:
        pool = list(range(n))

    def full(r):
        return [rng.randrange(x) for x in regs[r]["d"]]
    ops = []
    for k in range(nops):
        o = {"i": rng.choice(pool), "q": 0, "at": [], "bt": [], "via": rng.randrange(12)}
        r = rng.choice([0, 0, 1] + ([rows] if rows else []) + [single])
        x = rng.random()
        if x < 0.4 and k < nops * 0.7 or k < 3:
            o.update(o="insert", r=r, at=full(r))
        elif x < 0.5:
            o.update(o=rng.choice(["remove", "contains", "containsmut", "ones", "onesmut"]), r=r, at=full(r))
        elif x < 0.55:
            o.update(o="equal", r=0, q=rng.choice([1, 0, 1]))
        elif x < 0.63:
            o.update(o="clone", r=rng.choice([0, 1]), q=rng.choice([0, 1]))
        elif x < 0.66:
            q = rng.choice([single, spare])
            o.update(o="row", r=r, at=full(r), q=q)
            sizes[spare] = n if q == spare else sizes[spare]
        elif x < 0.72:
            # make it larger, or as large as it is
            sizes[spare] = n + rng.choice([0, 1, 5, 31, 32, 33, 64])
            o.update(o="resize", r=r, at=full(r), q=spare, i=sizes[spare])
        elif x < 0.76 and nd == 2:
            o.update(o="compact", r=rng.choice([0, 1]))
            o["at"] = [rng.randrange(d[0])]
        elif x < 0.8:
            # a smaller set into a larger one
            o.update(o=rng.choice(["union", "difference"]), r=spare, q=single)
        else:
            f = rng.choice(["union", "difference", "intersect", "copy", "subset", "subsetref", "union", "clear", "empty", "emptyref"])
            o.update(o=f, r=rng.choice([0, 1]))
            shape = rng.choice(["whole", "row", "cell"])
            if f == "clear" and shape == "whole" and rng.random() < 0.7:
                shape = "cell"
            if shape == "whole":
                o["q"] = 1 - o["r"]
            elif shape == "row" and nd == 2:
                o["at"] = [rng.randrange(d[0])]
                if rows and rng.random() < 0.5:
                    o["q"] = rows
                    if rng.random() < 0.3:
                        o.update(r=rows, q=rng.choice([0, 1]), at=[], bt=[rng.randrange(d[0])])
                else:
                    o.update(q=rng.choice([0, 1]), bt=[rng.randrange(d[0])])
            else:
                o["r"] = r
                o["at"] = full(r)
                o["q"] = rng.choice([0, 1, single])
                o["bt"] = full(o["q"])
        ops.append(o)
    return {"id": cid, "regs": regs, "ops": ops}


def run(prop, tier, rep, scratch):
    (binary,) = build()
    total, step = (12000, 6000) if tier == "quick" else (60000, 6000)
    rep.cov["rule"] = "random sequences of operations on sets of one to three dimensions and of sizes around the multiples of the block size"
    for start in range(0, total, step):
        rng = random.Random(f"{lib.SEED}/C12/{start}")
        cases = [case(rng, i, rng.choice([4, 8, 12, 20])) for i in range(step)]
        recs = lib.run_driver(binary, cases, scratch, tag=f"d{start}")
        out = []
        for c in cases:
            r = recs[c["id"]]
            bad = next((k for k in ("panic", "crash", "hang") if k in r), None)
            if bad:
                rep.violation(f"bit set operations: {bad}: {r[bad]}", {"case": c, "record": r})
                continue
            out.append(dict(c, steps=r["steps"], end=r["end"]))
        acc, rej, t = lib.validate("BitsTrace", out, scratch, tag=f"t{start}")
        rep.add_tlc(t)
        rep.count("traces_validated_against_impl", len(acc))
        rep.count("operations", sum(len(x["ops"]) for x in out))
        for x in out[:2]:
            rep.sample({"regs": x["regs"], "ops": [(o["o"], o["r"], o["at"], o["i"]) for o in x["ops"][:8]]})
        for k, why in rej.items():
            rep.violation(f"bit set operations: {why[:1200]}", {"case": cases[int(k)], "why": why[:5000]})
        if rep.violations:
            break
