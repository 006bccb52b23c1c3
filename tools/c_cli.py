"""C14: the command line tool answers like the library."""
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor

import gens
import lib
from c_load import LINES, BAD
from c_read import mutated


def build():
    return lib.build(os.path.join(lib.REPO), ("noodle", "noodle-webapp"), {"CARGO_PROFILE_DEV_DEBUG": "false"}, "target-repo",
                     args=("--locked", "--config", "profile.dev.package.noodle.opt-level=2", "-p", "noodle-cli", "-p", "noodle-webapp"))


def wordfile(rng, al, k):
    out = b""
    for i in range(k):
        r = rng.random()
        t = "".join(rng.choice(al) for _ in range(rng.randint(1, 4)))
        if r < 0.6:
            b = t.encode()
        elif r < 0.75:
            b = ("%d\t%s" % (rng.choice([0, 1, 77, 5000000]), t)).encode()
        elif r < 0.9:
            b = gens.decorate(rng, t).encode()
        elif r < 0.97:
            b = rng.choice(LINES).encode()
        else:
            b = rng.choice(BAD)
        out += b + rng.choice([b"\n", b"\n", b"\r\n"])
    return out if rng.random() < 0.7 else out.rstrip(b"\r\n")


def problem(rng):
    al = rng.choice(["a", "ab", "ab", "abc"])
    k, length = rng.choice([(30, 1), (30, 2), (12, 2), (8, 3), (5, 4), (3, 5), (2, -1), (1, -1), (6, 0), (0, 3), (1, 12), (20, 1)])
    data = wordfile(rng, al, k)
    qs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        g = gens.G(rng, al, ana=rng.choice([0, 0, 0.3]), expl=rng.random() < 0.2)
        q = rng.choice([".*", ".{%d}" % rng.randint(1, 6), "%s.*" % rng.choice(al), "(..)*", "%d %d" % (rng.randint(1, 3), rng.randint(1, 3))]) \
            if rng.random() < 0.4 else g.expr(rng.choice([1, 2]))
        qs.append(q + rng.choice(["", "", "", " !1", " !_", " !'"]))
    if rng.random() < 0.15:
        qs.insert(rng.randint(0, len(qs)), rng.choice(["#limit 2", "#words 1", "#words 7", "#quiet", "#dict en", "// x", "X=[ab]", "#limit 0"]))
    if rng.random() < 0.08:
        length = min(length, 3) if length != -1 else 2
        qs += ["#wordlist"] + ["".join(rng.choice(al) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(0, 6))]
    q = rng.choice(["\n", ";"]).join(qs)
    if rng.random() < 0.08:
        q = mutated(rng, q)
    count = rng.choice([-1, -1, -1, 0, 1, 2, 5, 50, 400])
    if length == -1 and any(x in q for x in ("*", "+}", "{")) and k > 1 and "!1" in q:
        length = 4
    return data, q, count, length


def run(prop, tier, rep, scratch):
    cli, _ = build()
    n = 700 if tier == "quick" else 8000
    step = 2000
    rep.cov["rule"] = "random word list files, queries and options given to the command line tool; what it prints is judged from the file and the query"
    for start in range(0, n, step):
        rng = random.Random(f"{lib.SEED}/C14/{start}")
        jobs = []
        for i in range(min(step, n - start)):
            data, q, count, length = problem(rng)
            readable = True
            path = scratch.path(f"c{start + i}.words")
            r = rng.random()
            if r < 0.97:
                with open(path, "wb") as f:
                    f.write(data)
            else:
                readable = False
                if r < 0.985:
                    os.mkdir(path)
                elif r < 0.99:
                    path += ".zst"
                    with open(path, "wb") as f:
                        f.write(b"no zst " + data)
            args = [cli]
            opts = [rng.choice([["-i", path], ["--input", path], ["--input=" + path]])]
            if count != -1:
                opts.append(rng.choice([["-n", str(count)], ["--count=%d" % count], ["-n%d" % count]]))
            if length != -1:
                opts.append(rng.choice([["-m", str(length)], ["--phrase-length", str(length)], ["-m%d" % length]]))
            opts.append(["--", q] if q.startswith("-") else [q])
            if not q.startswith("-"):
                rng.shuffle(opts)
            for o in opts:
                args += o
            jobs.append((i, data, q, count, length, readable, args))

        def one(j):
            try:
                p = subprocess.run(j[6], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, stdin=subprocess.DEVNULL,
                                   env=dict(os.environ, RUST_BACKTRACE="0"))
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                return None, b"", b""
        with ThreadPoolExecutor(lib.CPUS) as ex:
            outs = list(ex.map(one, [j for j in jobs if "\0" not in j[2]]))
        out, by, slow = [], {}, []
        for j, (rc, so, se) in zip([j for j in jobs if "\0" not in j[2]], outs):
            i, data, q, count, length, readable, args = j
            what = f"noodle {' '.join(repr(a) for a in args[1:] if 'build/run' not in a)} with words {data[:200]!r}"
            by[str(i)] = (j, what, so)
            if rc is None:
                slow.append((what, {"args": args, "bytes": list(data)}))
                continue
            lines = so.decode("utf-8", "replace").split("\n")
            if lines[-1] != "":
                rep.violation(f"{what}: the last line is not ended", {"args": args, "bytes": list(data), "out": lines})
                continue
            lines.pop()
            out.append({"id": i, "bytes": list(data), "readable": readable, "query": lib.codes(q), "count": count, "length": length,
                        "lines": [lib.codes(x) for x in lines], "succeeded": rc == 0, 
                        # anything but the line about the word list
                        "told": any(x.strip() and not x.startswith(b"Loaded ") for x in se.split(b"\n"))})
        rep.count("runs_given_up", len(slow))
        if len(slow) > len(jobs) // 100:
            for what, x in slow:
                rep.violation(f"{what}: did not end", x)
        acc, rej, t = lib.validate("CliTrace", out, scratch, tag=f"t{start}")
        rep.add_tlc(t)
        rep.count("traces_validated_against_impl", len(acc))
        rep.count("lines_printed", sum(len(x["lines"]) for x in out))
        rep.count("runs_with_results", sum(len(x["lines"]) > 0 for x in out))
        rep.count("failed_runs", sum(not x["succeeded"] for x in out))
        for x in out[:3]:
            rep.sample({"run": by[str(x["id"])][1], "lines": len(x["lines"])})
        for k, why in rej.items():
            rep.violation(f"{by[k][1]}: {why[:800]}", {"args": by[k][0][6], "bytes": list(by[k][0][1]), "out": by[k][2].decode("utf-8", "replace")[:3000], "why": why[:3000]})
        for j in jobs:
            p = [a for a in j[6] if "build/run" in a][0].split("=")[-1]
            if os.path.isfile(p):
                os.unlink(p)
        if rep.violations:
            break
