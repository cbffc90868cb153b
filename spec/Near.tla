------------------------------- MODULE Near -------------------------------
(* Nearest-point search over a matrix of distances (integers).  Any position
   at minimum distance is a right answer; the distance itself is determined. *)
EXTENDS Integers, Sequences, FiniteSets
Pos(D) == { <<i,j>> : i \in DOMAIN D, j \in IF Len(D) = 0 THEN {} ELSE DOMAIN D[1] }
At(D,p) == D[p[1]][p[2]]
Min(D) == CHOOSE d \in { At(D,p) : p \in Pos(D) } : \A p \in Pos(D) : d <= At(D,p)
Nearest(D) == { p \in Pos(D) : At(D,p) = Min(D) }
(* up to a resolution tol of the distances *)
NearestWithin(D,tol) == { p \in Pos(D) : At(D,p) <= Min(D) + tol }
=============================================================================
