----------------------------- MODULE TraceCart -----------------------------
(* Recorded conversions and areas.  Each number is recorded as its difference
   from the expected value in units of the tolerance it may carry, rounded
   toward zero (so 0 means within), or 1000000 if there is no such number.
   events
     [ev "cart", m, n, legal, kind, mro, shape, err (rows of <<x,y,z>>)]
     [ev "area", m, n, kind, shape, err (rows)] *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l,bad>>
Zero(M) == \A i \in DOMAIN M : \A j \in DOMAIN M[i] : M[i][j] = 0
Zero3(M) == \A i \in DOMAIN M : \A j \in DOMAIN M[i] : \A k \in DOMAIN M[i][j] : M[i][j][k] = 0
Clauses(e) == CASE
   e.ev = "cart" /\ ~e.legal ->
      << <<"cart.refused", e.kind = "err" /\ \E k \in DOMAIN e.mro : e.mro[k] = "ValueError">> >>
 [] e.ev = "cart" ->
      << <<"cart.answers", e.kind = "ok">>,
         <<"cart.shape", e.kind = "ok" => e.shape = <<e.m,e.n,3>> >>,
         <<"cart.value", (e.kind = "ok" /\ e.shape = <<e.m,e.n,3>>) => Zero3(e.err)>> >>
 [] OTHER ->
      << <<"area.answers", e.kind = "ok">>,
         <<"area.shape", e.kind = "ok" => e.shape = <<e.m-1,e.n-1>> >>,
         <<"area.value", (e.kind = "ok" /\ e.shape = <<e.m-1,e.n-1>>) => Zero(e.err)>>,
         <<"area.sum", e.kind = "ok" => e.sum = 0>> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN
           bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
