---------------------------- MODULE TraceMatch ----------------------------
(* One event per matchedges call.
   m,n,mb,nb  corner matrix sizes; close: list of <<corner of A, corner of B>>
   kind, value_error, ea, eb (edge codes), arow, brow (positions selected), join
   (positions selected in A's ring lattice), strip (1 per point: where it should be) *)
EXTENDS Match, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
CloseSet(e) == { <<e.close[k][1], e.close[k][2]>> : k \in DOMAIN e.close }
Clauses(e) ==
   LET c == CloseSet(e)
       v == Verdict(c)
       t == TheEdge(c)
   IN IF v = "refuse" THEN << <<"match.refuse", e.kind = "err" /\ e.value_error>> >>
      ELSE IF v = "open" THEN <<>>
      ELSE IF e.kind # "ok" THEN << <<"match.accept", FALSE>> >>
      ELSE << <<"match.edge", e.ea = Code(t) /\ e.eb = Code(Opp(t))>>,
              <<"match.rows", e.arow = EdgeRow(e.m,e.n,t) /\ e.brow = EdgeRow(e.mb,e.nb,Opp(t))>>,
              <<"match.join", e.join = JoinAt(e.m,e.n,t)>>,
              <<"match.len",  Len(e.strip) = StripLen(e.m,e.n,t)>>,
              <<"match.strip", \A k \in DOMAIN e.strip : e.strip[k] = 1>> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == l = Len(Trace)+1 /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad]) /\ l' = l+1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l,bad>>
=============================================================================
