------------------------------ MODULE MCMatch ------------------------------
(* Two rectangular tiles anywhere on a small integer plane: what the corner
   test concludes against what the rectangles say, and whether the strip the
   spec describes is the half-cell line of the joined grid. *)
EXTENDS Match, TLC
CONSTANT Span
VARIABLES a, b
Rect == { r \in [x0: 0..Span, x1: 0..Span, y0: 0..Span, y1: 0..Span] : r.x0 < r.x1 /\ r.y0 < r.y1 }
Corner(r,c) == CASE c = "SW" -> <<r.x0,r.y0>> [] c = "SE" -> <<r.x1,r.y0>>
                 [] c = "NE" -> <<r.x1,r.y1>> [] c = "NW" -> <<r.x0,r.y1>>
Cs == {"SW","SE","NE","NW"}
Close == { p \in Cs \X Cs : Corner(a,p[1]) = Corner(b,p[2]) }
Init == a \in Rect /\ b \in Rect
Next == UNCHANGED <<a,b>>
Spec == Init /\ [][Next]_<<a,b>>
EastOf  == a.x1 = b.x0 /\ a.y0 = b.y0 /\ a.y1 = b.y1
WestOf  == a.x0 = b.x1 /\ a.y0 = b.y0 /\ a.y1 = b.y1
NorthOf == a.y1 = b.y0 /\ a.x0 = b.x0 /\ a.x1 = b.x1
SouthOf == a.y0 = b.y1 /\ a.x0 = b.x0 /\ a.x1 = b.x1
Right == Verdict(Close) = (IF EastOf \/ WestOf \/ NorthOf \/ SouthOf THEN "edge" ELSE "refuse")
Which == Verdict(Close) = "edge" => TheEdge(Close) = (CASE EastOf -> "E" [] WestOf -> "W" [] NorthOf -> "N" [] SouthOf -> "S")
\* unit cells: strip point k of edge E is lattice point (2M-1, k-1) of the joined grid,
\* whose construction over the joined corners is the same term shifted by M-1 columns
M == a.x1 - a.x0 + 1
N == a.y1 - a.y0 + 1
StripE == \A k \in 1..StripLen(M,N,"E") : LET t == Term(2*M-1,k-1,1,1) s == StripTerm("E",k) IN
             IF s[1] = 1 THEN t = <<1, M-1, s[3], s[4]>> ELSE t = <<s[1], s[2]+2*(M-1), s[3], s[4]>>
StripN == \A k \in 1..StripLen(M,N,"N") : LET t == Term(k-1,2*N-1,1,1) s == StripTerm("N",k) IN
             t = <<s[1], s[2], s[3]+N-1, s[4]>>
=============================================================================
