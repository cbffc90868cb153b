------------------------------- MODULE Fill -------------------------------
(***************************************************************************)
(* The fill-in algorithm as a state machine: corners are mapped onto the   *)
(* lattice, every x-edge is subdivided (any order), then every column is   *)
(* subdivided in y (any order).  TLC checks that the result is the closed  *)
(* form Refine!Term whatever the order, that no point is ever written      *)
(* twice, and that existing corners survive.                               *)
(***************************************************************************)
EXTENDS Refine, TLC
CONSTANTS Shapes          \* set of <<nx,ny,ls,ks>>
VARIABLES cfg, pt, todo, phase
vars == <<cfg,pt,todo,phase>>

nx == cfg[1]
ny == cfg[2]
ls == cfg[3]
ks == cfg[4]
Undef == <<>>

Init == /\ cfg \in Shapes
        /\ pt = [xy \in LatticePts(cfg[1],cfg[2],cfg[3],cfg[4]) |->
                   IF xy[1] % SX(cfg[3]) = 0 /\ xy[2] % SY(cfg[4]) = 0
                   THEN <<0, xy[1] \div SX(cfg[3]), xy[2] \div SY(cfg[4])>> ELSE Undef]
        /\ todo = (0..cfg[1]-1) \X (0..cfg[2])
        /\ phase = "x"

\* subdivide the edge (i,j)-(i+1,j): needs both end points, writes the 2ls-1 points between
FillX == /\ phase = "x"
         /\ \E e \in todo :
              LET i == e[1] j == e[2] q == SY(ks)*j IN
              /\ pt[<<SX(ls)*i,q>>] # Undef /\ pt[<<SX(ls)*(i+1),q>>] # Undef
              /\ Assert(\A k \in 1..SX(ls)-1 : pt[<<SX(ls)*i+k,q>>] = Undef, "overwritten")
              /\ pt' = [xy \in DOMAIN pt |->
                    IF xy[2] = q /\ xy[1] > SX(ls)*i /\ xy[1] < SX(ls)*(i+1)
                    THEN <<1,i,j,xy[1] - SX(ls)*i>> ELSE pt[xy]]
              /\ todo' = todo \ {e}
         /\ UNCHANGED <<cfg,phase>>
XtoY == /\ phase = "x" /\ todo = {}
        /\ phase' = "y" /\ todo' = (0..SX(ls)*nx) \X (0..ny-1)
        /\ UNCHANGED <<cfg,pt>>
FillY == /\ phase = "y"
         /\ \E e \in todo :
              LET p == e[1] j == e[2] IN
              /\ pt[<<p,SY(ks)*j>>] # Undef /\ pt[<<p,SY(ks)*(j+1)>>] # Undef
              /\ Assert(\A k \in 1..SY(ks)-1 : pt[<<p,SY(ks)*j+k>>] = Undef, "overwritten")
              /\ pt' = [xy \in DOMAIN pt |->
                    IF xy[1] = p /\ xy[2] > SY(ks)*j /\ xy[2] < SY(ks)*(j+1)
                    THEN <<2,p,j,xy[2] - SY(ks)*j>> ELSE pt[xy]]
              /\ todo' = todo \ {e}
         /\ UNCHANGED <<cfg,phase>>
Done == phase = "y" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<cfg,pt,todo>>
Next == FillX \/ XtoY \/ FillY \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Filled == \A xy \in DOMAIN pt : pt[xy] # Undef => pt[xy] = Term(xy[1],xy[2],ls,ks)
Complete == phase = "done" => \A xy \in DOMAIN pt : pt[xy] # Undef
CornersKept == \A i \in 0..nx, j \in 0..ny : pt[<<SX(ls)*i,SY(ks)*j>>] = <<0,i,j>>
\* the refined grid's own corners are the even lattice points, so every existing
\* corner is entry (ls*i, ks*j) of the refined XG/YG
CornerIndex == \A i \in 0..nx, j \in 0..ny :
     Term(LP("XG",ls*i), LQ("XG",ks*j), ls, ks) = <<0,i,j>>
Terminates == <>(phase = "done")
=============================================================================
