----------------------------- MODULE GenRefine -----------------------------
(***************************************************************************)
(* Emits, for each configuration                                           *)
(*   [m, n, nw, se, ls, ks]  (stored corner matrix size, the two picked    *)
(*   corners, factors)                                                     *)
(* what the refined grid is: the stored corner behind each corner of the   *)
(* region, the construction of every lattice point, and for every entry of *)
(* every field the lattice point or elements it stands for ([] if          *)
(* undefined).                                                             *)
(***************************************************************************)
EXTENDS Refine, Orient, TLC, Json, IOUtils
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES l, out
Comp(f,nX,nY,i,j) ==
   IF Kind(f) \in {"lon","lat"} THEN << <<3, LP(f,i), LQ(f,j)>> >>
   ELSE IF Defined(nX,nY,f,i,j) THEN Elems(f,i,j) ELSE <<>>
FieldMatrix(f,nX,nY) == [ i \in 1..nX+NiDel(f) |-> [ j \in 1..nY+NjDel(f) |-> Comp(f,nX,nY,i-1,j-1) ] ]
Emit(c) ==
   LET nx == BlockNx(c.m,c.n,c.nw,c.se)
       ny == BlockNy(c.m,c.n,c.nw,c.se)
       nX == c.ls*nx
       nY == c.ks*ny
   IN [ nx |-> nx, ny |-> ny, ni |-> nX, nj |-> nY,
        block |-> Block(c.m,c.n,c.nw,c.se),
        terms |-> [ p \in 1..2*nX+1 |-> [ q \in 1..2*nY+1 |-> Term(p-1,q-1,c.ls,c.ks) ] ],
        fields |-> [ f \in Fields |-> FieldMatrix(f,nX,nY) ],
        kinds |-> [ f \in Fields |-> Kind(f) ] ]
Init == l = 1 /\ out = <<>>
Step == l <= Len(Configs) /\ out' = Append(out, Emit(Configs[l])) /\ l' = l + 1
Finish == l = Len(Configs)+1 /\ JsonSerialize(IOEnv.OUT, out) /\ l' = l + 1 /\ UNCHANGED out
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l,out>>
=============================================================================
