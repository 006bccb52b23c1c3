#!/usr/bin/env python3
"""gen_chartable.py AGES: writes CharTable.tla: what each non-ASCII code point contributes to a
normalised word, from the Unicode data (NFKD, then drop marks, then fold case, then classify), and the
ranges of code points it is about: those assigned in Unicode 13, which the newest data may not change
(AGES has one code point per line; perl -e '... /\\p{Present_In: 13.0}/'). Run once; the result is
committed. Independent of the implementation under test."""
import sys
import unicodedata as u


def code(c):
    o = ord(c)
    if 97 <= o <= 122: return o - 97
    if 65 <= o <= 90: return o - 65
    if c in ' _': return 27
    return 26


def norm(c):
    out = []
    for d in u.normalize('NFKD', c):
        if u.category(d).startswith('M'): continue
        for e in {'æ': 'ae', 'Æ': 'ae', 'œ': 'oe', 'Œ': 'oe'}.get(d, d):
            for f in e.upper():
                # one char at a time: no final-sigma context, and dotted I stays two chars
                for g in f.lower(): out.append(code(g))
    return tuple(out)


def ranges(it):
    """Runs of consecutive code points with the same value"""
    rs = []
    for o, v in it:
        if rs and rs[-1][1] == o - 1 and rs[-1][2] == v: rs[-1][1] = o
        else: rs.append([o, o, v])
    return rs


ages = [int(x) for x in open(sys.argv[1])]
rows = ranges((o, norm(chr(o))) for o in ages if o >= 128 and not 0xac00 <= o <= 0xd7a3)
rows = [r for r in rows if r[2] != (26,)]
assigned = ranges((o, 0) for o in ages)
with open("CharTable.tla", "w") as f:
    def p(*a): print(*a, file=f)
    p("---- MODULE CharTable ----")
    p("\\* Generated by gen_chartable.py from the Unicode %s data; see there." % u.unidata_version)
    p("\\* CharRows: <<first, last code point, the codes each contributes to a word>>, ordered;")
    p("\\* code points without a row contribute one punctuation code, Hangul syllables one for each of their parts.")
    p("EXTENDS Integers, Sequences")
    p("CharRows == <<")
    p(",\n".join("<<%d, %d, <<%s>>>>" % (a, b, ", ".join(map(str, v))) for a, b, v in rows))
    p(">>")
    p("RECURSIVE CharFind(_, _, _)")
    p("\\* Binary search for c among the rows lo..hi")
    p("CharFind(c, lo, hi) ==")
    p("    IF c \\in 44032..55203 THEN IF (c - 44032) % 28 = 0 THEN <<26, 26>> ELSE <<26, 26, 26>>")
    p("    ELSE IF lo > hi THEN <<26>>")
    p("    ELSE LET m == (lo + hi) \\div 2 IN")
    p("         IF c > CharRows[m][2] THEN CharFind(c, m + 1, hi)")
    p("         ELSE IF c < CharRows[m][1] THEN CharFind(c, lo, m - 1) ELSE CharRows[m][3]")
    p("\\* The code points which the table is about")
    p("Assigned == <<")
    p(",\n".join("<<%d, %d>>" % (a, b) for a, b, _ in assigned))
    p(">>")
    p("====")
print(len(rows), "rows", len(assigned), "ranges")
for o in range(0xac00, 0xd7a4): assert norm(chr(o)) == (26,) * (2 if (o - 0xac00) % 28 == 0 else 3)
