------------------------------- MODULE Tiles -------------------------------
(***************************************************************************)
(* Two tiles A and B sharing A's edge e (N,S,E or W; B's opposite edge):   *)
(* fringing A and joining the two.  Grids map fields to matrices (1-based  *)
(* rows); nia,nja / nib,njb are the cell counts.                           *)
(***************************************************************************)
EXTENDS MitFile

\* size of the joined grid, and where A's and B's entry (0,0) lie in it
JoinNi(e,nia,nib) == IF e \in {"E","W"} THEN nia + nib ELSE nia
JoinNj(e,nja,njb) == IF e \in {"N","S"} THEN nja + njb ELSE nja
OffA(e,nib,njb) == CASE e = "W" -> <<nib,0>> [] e = "S" -> <<0,njb>> [] OTHER -> <<0,0>>
OffB(e,nia,nja) == CASE e = "E" -> <<nia,0>> [] e = "N" -> <<0,nja>> [] OTHER -> <<0,0>>
\* the location of entry (i,j) of the joined grid belongs to A if A has it at all
InA(e,f,nia,nja,nib,njb,i,j) ==
   LET o == OffA(e,nib,njb) IN
   /\ i >= o[1] /\ i < o[1] + Rows(f,nia)
   /\ j >= o[2] /\ j < o[2] + Cols(f,nja)
Place(e,nia,nja,nib,njb,a,b) ==
   LET oa == OffA(e,nib,njb) ob == OffB(e,nia,nja)
       ni == JoinNi(e,nia,nib) nj == JoinNj(e,nja,njb) IN
   [ f \in Fields |-> [ i \in 1..Rows(f,ni) |-> [ j \in 1..Cols(f,nj) |->
        IF InA(e,f,nia,nja,nib,njb,i-1,j-1) THEN a[f][i-oa[1]][j-oa[2]]
        ELSE b[f][i-ob[1]][j-ob[2]] ] ] ]

Coord(f) == Kind(f) \in {"lon","lat"}
\* what decides entry (i,j) of A: "own" (A alone), "cross" (A and B), "none"
Decides(e,f,nia,nja,nib,njb,i,j) ==
   IF Coord(f) \/ Defined(nia,nja,f,i,j) THEN "own"
   ELSE LET o == OffA(e,nib,njb) IN
        IF Defined(JoinNi(e,nia,nib), JoinNj(e,nja,njb), f, i+o[1], j+o[2]) THEN "cross" ELSE "none"

\* the entry's elements straddle a cut line of the grid: cuts are <<axis, cell>>
Straddles(f,i,j,cuts) ==
   \E k \in DOMAIN cuts : \E a \in DOMAIN Elems(f,i,j) : \E b \in DOMAIN Elems(f,i,j) :
      LET x == Elems(f,i,j)[a] y == Elems(f,i,j)[b]
          c == 2*cuts[k][2] ax == cuts[k][1] + 2 IN
      /\ x[ax] < c /\ y[ax] >= c /\ (Kind(f) = "area" \/ x[1] + 2 = ax)
=============================================================================
