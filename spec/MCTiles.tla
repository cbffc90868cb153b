------------------------------ MODULE MCTiles ------------------------------
(***************************************************************************)
(* A grid is cut along full lines into tiles, which are joined pairwise in *)
(* any order and from either side until one is left.  Values are symbolic: *)
(* every defined entry of the grid has its own number, undefined ones are  *)
(* zero.  Tiles lose the entries that reach outside them; fringing fills   *)
(* in A's zeros that A alone determines and, in mode "computed", those     *)
(* determined by A and B.  In mode "zero" (what the code does, see the     *)
(* known findings) the result keeps zeros on cuts and depends on the order *)
(* of joins there (OrderFree fails); in mode "computed" nothing is lost.   *)
(***************************************************************************)
EXTENDS Tiles, TLC
CONSTANTS NX, NY, Mode
VARIABLES cutsx, cutsy, tiles
vars == <<cutsx,cutsy,tiles>>

Num(f,i,j) == 1000*FieldNo(f) + 20*i + j + 10
GVal(f,i,j) == IF Coord(f) \/ Defined(NX,NY,f,i,j) THEN Num(f,i,j) ELSE 0
\* the tile of cells x0..x1-1, y0..y1-1
CutTile(x0,x1,y0,y1) ==
   [ x0 |-> x0, x1 |-> x1, y0 |-> y0, y1 |-> y1,
     g |-> [ f \in Fields |-> [ i \in 1..Rows(f,x1-x0) |-> [ j \in 1..Cols(f,y1-y0) |->
        IF Coord(f) \/ Defined(x1-x0,y1-y0,f,i-1,j-1) THEN GVal(f,i-1+x0,j-1+y0) ELSE 0 ] ] ] ]
\* consecutive cut positions
Succs(S,x) == CHOOSE y \in S : y > x /\ \A z \in S : z > x => z >= y
Init == /\ cutsx \in SUBSET (1..NX-1) /\ cutsy \in SUBSET (1..NY-1)
        /\ LET X == cutsx \cup {0,NX} Y == cutsy \cup {0,NY} IN
           tiles = { CutTile(x, Succs(X,x), y, Succs(Y,y)) : x \in X \ {NX}, y \in Y \ {NY} }
EdgeOf(a,b) == IF a.x1 = b.x0 /\ a.y0 = b.y0 /\ a.y1 = b.y1 THEN "E"
               ELSE IF a.x0 = b.x1 /\ a.y0 = b.y0 /\ a.y1 = b.y1 THEN "W"
               ELSE IF a.y1 = b.y0 /\ a.x0 = b.x0 /\ a.x1 = b.x1 THEN "N"
               ELSE IF a.y0 = b.y1 /\ a.x0 = b.x0 /\ a.x1 = b.x1 THEN "S" ELSE "-"
Min2(x,y) == IF x < y THEN x ELSE y
Max2(x,y) == IF x > y THEN x ELSE y
Fringe(e,a,b) ==
   [ f \in Fields |-> [ i \in DOMAIN a.g[f] |-> [ j \in DOMAIN a.g[f][i] |->
      IF a.g[f][i][j] # 0 THEN a.g[f][i][j]
      ELSE IF LET d == Decides(e,f,a.x1-a.x0,a.y1-a.y0,b.x1-b.x0,b.y1-b.y0,i-1,j-1) IN
              d = "own" \/ (d = "cross" /\ Mode = "computed")
           THEN GVal(f,i-1+a.x0,j-1+a.y0) ELSE 0 ] ] ]
Join == \E a \in tiles, b \in tiles :
   LET e == EdgeOf(a,b) IN
   /\ e # "-"
   /\ tiles' = (tiles \ {a,b}) \cup
        { [ x0 |-> Min2(a.x0,b.x0), x1 |-> Max2(a.x1,b.x1), y0 |-> Min2(a.y0,b.y0), y1 |-> Max2(a.y1,b.y1),
            g |-> Place(e,a.x1-a.x0,a.y1-a.y0,b.x1-b.x0,b.y1-b.y0,Fringe(e,a,b),b.g) ] }
   /\ UNCHANGED <<cutsx,cutsy>>
Next == Join
Spec == Init /\ [][Next]_vars

Seq2(S,ax) == { <<ax,c>> : c \in S }
AnyCut(f,i,j) == \E c \in Seq2(cutsx,0) \cup Seq2(cutsy,1) : Straddles(f,i,j,<<c>>)
\* every tile, at every stage, holds the grid's values except where entries straddle a cut
Holds == \A t \in tiles : \A f \in Fields :
   /\ Len(t.g[f]) = Rows(f,t.x1-t.x0)
   /\ \A i \in DOMAIN t.g[f] : /\ Len(t.g[f][i]) = Cols(f,t.y1-t.y0)
        /\ \A j \in DOMAIN t.g[f][i] :
             LET v == t.g[f][i][j] IN v = GVal(f,i-1+t.x0,j-1+t.y0) \/ (v = 0 /\ AnyCut(f,i-1+t.x0,j-1+t.y0))
Whole == Cardinality(tiles) = 1 => \A t \in tiles : \A f \in Fields :
   \A i \in DOMAIN t.g[f] : \A j \in DOMAIN t.g[f][i] : t.g[f][i][j] = GVal(f,i-1,j-1)
\* joining can always go on until one tile is left (some order always exists)
NoDeadEnd == Cardinality(tiles) > 1 => ENABLED Join
=============================================================================
