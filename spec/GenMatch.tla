------------------------------ MODULE GenMatch ------------------------------
(* For configurations [m,n,mb,nb,close] emits the verdict and, where an edge
   is shared, the strip: bounding rows, constructions, and where it is joined. *)
EXTENDS Match, TLC, Json, IOUtils
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES l, out
Emit(c) ==
   LET cl == { <<c.close[k][1], c.close[k][2]>> : k \in DOMAIN c.close } v == Verdict(cl) IN
   IF v # "edge" THEN [ verdict |-> v ]
   ELSE LET e == TheEdge(cl) IN
        [ verdict |-> v, edge |-> e,
          low |-> LowRow(c.m,c.n,c.mb,c.nb,e), high |-> HighRow(c.m,c.n,c.mb,c.nb,e),
          terms |-> [ k \in 1..StripLen(c.m,c.n,e) |-> StripTerm(e,k) ] ]
Init == l = 1 /\ out = <<>>
Step == l <= Len(Configs) /\ out' = Append(out, Emit(Configs[l])) /\ l' = l + 1
Finish == l = Len(Configs)+1 /\ JsonSerialize(IOEnv.OUT, out) /\ l' = l + 1 /\ UNCHANGED out
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l,out>>
=============================================================================
