------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* Which edges two tiles share, what the selectors select, and which strip *)
(* of mid-points joins tile A.  Tiles have M x N corner positions.         *)
(***************************************************************************)
EXTENDS Refine
Edges == {"N","S","E","W"}
Opp(e) == CASE e = "N" -> "S" [] e = "S" -> "N" [] e = "E" -> "W" [] e = "W" -> "E"
Code(e) == CASE e = "N" -> 0 [] e = "S" -> 1 [] e = "E" -> 2 [] e = "W" -> 3
\* end corners of an edge, from low to high index
Ends2(e) == CASE e = "N" -> <<"NW","NE">> [] e = "S" -> <<"SW","SE">>
              [] e = "E" -> <<"SE","NE">> [] e = "W" -> <<"SW","NW">>
\* close is a set of <<corner of A, corner of B>>
Same(close,ea,eb) == \A k \in 1..2 : <<Ends2(ea)[k], Ends2(eb)[k]>> \in close
Crossed(close,ea,eb) == \A k \in 1..2 : <<Ends2(ea)[k], Ends2(eb)[3-k]>> \in close
Shared(close) == { e \in Edges : Same(close,e,Opp(e)) }
\* an edge of one tile is (as far as its ends tell) an edge of the other
TouchA(close) == { e \in Edges : \A k \in 1..2 : \E c \in {"SW","SE","NE","NW"} : <<Ends2(e)[k],c>> \in close }
TouchB(close) == { e \in Edges : \A k \in 1..2 : \E c \in {"SW","SE","NE","NW"} : <<c,Ends2(e)[k]>> \in close }
Mirrored(close) == \E e \in Edges : Crossed(close,e,Opp(e)) /\ ~Same(close,e,Opp(e))
\* "edge" (the one shared pair), "refuse", or "open" (nothing is specified)
Verdict(close) ==
   IF Mirrored(close) \/ Cardinality(Shared(close)) > 1 THEN "open"
   ELSE IF Cardinality(Shared(close)) = 1 THEN "edge" ELSE "refuse"
TheEdge(close) == CHOOSE e \in Edges : Same(close,e,Opp(e))
\* positions an edge selector selects, in order
EdgeRow(M,N,e) == CASE e = "W" -> [ k \in 1..N |-> <<0,k-1>> ]
                    [] e = "E" -> [ k \in 1..N |-> <<M-1,k-1>> ]
                    [] e = "S" -> [ k \in 1..M |-> <<k-1,0>> ]
                    [] e = "N" -> [ k \in 1..M |-> <<k-1,N-1>> ]
NextRow(M,N,e) == CASE e = "W" -> [ k \in 1..N |-> <<1,k-1>> ]
                    [] e = "E" -> [ k \in 1..N |-> <<M-2,k-1>> ]
                    [] e = "S" -> [ k \in 1..M |-> <<k-1,1>> ]
                    [] e = "N" -> [ k \in 1..M |-> <<k-1,N-2>> ]
\* the strip lies in the row of B's cells next to A; its construction, in terms of the
\* two bounding corner rows (low first): lattice points on the middle line of the row
StripLen(M,N,e) == IF e \in {"E","W"} THEN 2*N-1 ELSE 2*M-1
StripTerm(e,k) == IF e \in {"E","W"} THEN Term(1,k-1,1,1) ELSE Term(k-1,1,1,1)
\* low and high bounding rows: <<owner, positions>>
LowRow(M,N,MB,NB,e)  == IF e \in {"E","N"} THEN <<"A", EdgeRow(M,N,e)>> ELSE <<"B", NextRow(MB,NB,Opp(e))>>
HighRow(M,N,MB,NB,e) == IF e \in {"E","N"} THEN <<"B", NextRow(MB,NB,Opp(e))>> ELSE <<"A", EdgeRow(M,N,e)>>
\* the lattice of A's own compute grid has (2M+1) x (2N+1) positions counting the ring;
\* where the strip goes
JoinAt(M,N,e) == CASE e = "E" -> [ k \in 1..2*N-1 |-> <<2*M,k>> ]
                   [] e = "W" -> [ k \in 1..2*N-1 |-> <<0,k>> ]
                   [] e = "N" -> [ k \in 1..2*M-1 |-> <<k,2*N>> ]
                   [] e = "S" -> [ k \in 1..2*M-1 |-> <<k,0>> ]
=============================================================================
