------------------------------ MODULE GenCart ------------------------------
(* For a corner matrix M (15-degree units) emits, exactly, the cartesian points
   and for each cell the terms of its spherical and planar areas. *)
EXTENDS Cart, Json, IOUtils
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES l, out
Emit(c) == LET M == c.M IN
   [ cart |-> [ i \in DOMAIN M |-> [ j \in DOMAIN M[1] |-> Corner(M,i,j) ] ],
     sph |-> [ i \in 1..Len(M)-1 |-> [ j \in 1..Len(M[1])-1 |-> SphereTerms(Quad(M,i,j)) ] ],
     pla |-> [ i \in 1..Len(M)-1 |-> [ j \in 1..Len(M[1])-1 |-> VectorArea(Quad(M,i,j)) ] ] ]
Init == l = 1 /\ out = <<>>
Step == l <= Len(Configs) /\ out' = Append(out, Emit(Configs[l])) /\ l' = l + 1
Finish == l = Len(Configs)+1 /\ JsonSerialize(IOEnv.OUT, out) /\ l' = l + 1 /\ UNCHANGED out
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l,out>>
=============================================================================
