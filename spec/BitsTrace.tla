---- MODULE BitsTrace ----
(***************************************************************************)
(* Checks recorded sequences of bit set operations against BitSets, one    *)
(* operation at a time.                                                    *)
(***************************************************************************)
EXTENDS BitSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, l, regs
vars == <<cid, l, regs>>
Case == Cases[cid]
Verdict(why) == IF why = <<>> THEN PrintT("ACCEPT " \o ToString(Case.id))
                ELSE PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(l) \o " " \o ToString(why))

TraceInit == cid \in 1..Len(Cases) /\ l = 0 /\ regs = [r \in 1..Len(Case.regs) |-> Fresh(Case.regs[r].d, Case.regs[r].n)]
Shown(dump, s) == Len(dump) = Len(s.m) /\ \A c \in 1..Len(dump) : Lists(dump[c], s.m[c])

After(op) ==
    LET s == regs[op.r + 1]
        t == regs[op.q + 1]
    IN IF op.o \in Derives THEN [regs EXCEPT ![op.q + 1] = Derive(op.o, s, op.at, op.i)]
       ELSE [regs EXCEPT ![op.r + 1] = Operate(op.o, s, op.at, op.i, t, op.bt)]
Changed(op) == IF op.o \in Derives THEN op.q + 1 ELSE op.r + 1
Answered(op, step) ==
    LET s == regs[op.r + 1] IN
    IF op.o \in {"ones", "onesmut"} THEN Lists(step.v, CellOf(s, op.at))
    ELSE op.o \in Questions => step.v = Holds(op.o, s, op.at, op.i, regs[op.q + 1], op.bt)

Working == l < Len(Case.ops)
Op == Case.ops[l + 1]
Step == Case.steps[l + 1]
Good(rs) == Answered(Op, Step) /\ Shown(Step.dump, rs[Changed(Op)])
Do == Working /\ LET rs == TLCEval(After(Op)) IN Good(rs) /\ regs' = rs /\ l' = l + 1 /\ cid' = cid
Wrong == Working /\ LET rs == TLCEval(After(Op)) IN
            /\ ~Good(rs)
            /\ Verdict(<<Op, "got", Step, "expected", rs[Changed(Op)], "before", regs[Changed(Op)]>>)
            /\ FALSE
         /\ UNCHANGED vars
Judge == ~Working /\ Verdict(IF \A r \in 1..Len(regs) : Shown(Case.end[r], regs[r]) THEN <<>> ELSE <<"in the end", Case.end, regs>>)
         /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][Do \/ Wrong \/ Judge]_vars
InRange == \A r \in 1..Len(regs) : \A c \in DOMAIN regs[r].m : \A x \in regs[r].m[c] : x < regs[r].n
====
