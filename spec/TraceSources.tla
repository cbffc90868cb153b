---------------------------- MODULE TraceSources ----------------------------
(* Events: [s: source record, par: parameters, sure: corner points unambiguous,
   kind, value_error, result (0 when refused)].
   State: what each (corners, parameters) gave first. *)
EXTENDS Sources, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen, bad
Key(e) == << Denotes(e.s), e.par >>
Clauses(e) == <<
   <<"source.refuse", Denotes(e.s) = <<>> => (e.kind = "err" /\ e.value_error)>>,
   <<"source.accept", (Denotes(e.s) # <<>> /\ e.sure) => e.kind = "ok">>,
   <<"source.same",   (Denotes(e.s) # <<>> /\ Key(e) \in DOMAIN seen) =>
                         (e.kind = seen[Key(e)].kind /\ (e.kind = "ok" => e.result = seen[Key(e)].result))>> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>> /\ seen = [x \in {} |-> 0]
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l] F == Failing(e) IN
           /\ bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
           /\ seen' = LET old == IF e.new THEN [x \in {} |-> 0] ELSE seen IN
                      IF Denotes(e.s) # <<>> THEN old @@ (Key(e) :> [kind |-> e.kind, result |-> e.result]) ELSE old
        /\ l' = l + 1
Finish == l = Len(Trace)+1 /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad]) /\ l' = l+1 /\ UNCHANGED <<seen,bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l,seen,bad>>
=============================================================================
