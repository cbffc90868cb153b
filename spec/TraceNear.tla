----------------------------- MODULE TraceNear -----------------------------
(* events [ev "near", legal, D, tol, res]: res is the sequence of answers to the
   same question (several memory layouts, longitude conventions), each
   [kind, mro, i, j, d]; indices zero-based, D and d in the same unit. *)
EXTENDS Near, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l,bad>>
Refused(r) == r.kind = "err" /\ \E k \in DOMAIN r.mro : r.mro[k] = "ValueError"
All(e,P(_)) == \A k \in DOMAIN e.res : P(e.res[k])
Ok(r) == r.kind = "ok"
Clauses(e) ==
   IF ~e.legal THEN << <<"near.refused", All(e,Refused)>> >>
   ELSE LET Where(r) == Ok(r) => <<r.i+1,r.j+1>> \in NearestWithin(e.D,e.tol)
            Dist(r)  == Ok(r) => r.d - Min(e.D) \in -e.tol..e.tol IN
        << <<"near.answers", All(e,Ok)>>, <<"near.position", All(e,Where)>>, <<"near.distance", All(e,Dist)>> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN
           bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
