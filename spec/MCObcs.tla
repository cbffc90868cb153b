------------------------------ MODULE MCObcs ------------------------------
(* A getobcs run as a machine: for every variable in turn a buffer per
   boundary is filled slab by slab (depth, time) in any order and written out
   when complete, into a directory that may hold files of earlier runs. *)
EXTENDS Obcs, TLC
CONSTANTS MaxN, MaxD, MaxT
VARIABLES ni, nj, vecs, todo, cur, slabs, buf, disk, D, T
vars == <<ni,nj,vecs,todo,cur,slabs,buf,disk,D,T>>
V == {"T","U","V"}
VecChoices(side,m,n) == LET A == Across(side,m,n) L == Along(side,m,n) IN
   { <<>>, [k \in 1..L |-> 0] } \cup { [k \in 1..L |-> IF k = 1 THEN x ELSE y] : x \in {1,-1}, y \in {A,-A} }
Stale == <<-1>>
Empty == <<>>
Init == /\ ni \in 1..MaxN /\ nj \in 1..MaxN
        /\ \E s \in Sides : vecs \in { [ t \in Sides |-> IF t = s THEN v ELSE w[t] ] :
               v \in VecChoices(s,ni,nj), w \in {[t \in Sides |-> <<>>], [t \in Sides |-> [k \in 1..Along(t,ni,nj) |-> -1]]} }
        /\ todo \in SUBSET V /\ "T" \in todo
        /\ cur = "none" /\ slabs = {} /\ buf = [s \in Sides |-> Empty]
        /\ disk \in { [ s \in Sides |-> [ v \in V |-> x ] ] : x \in {Empty, <<Stale>>} }
        /\ D \in 1..MaxD /\ T \in 1..MaxT
Depths(v) == IF v = "V" THEN 1 ELSE D
Begin(v) == /\ cur = "none" /\ v \in todo
            /\ cur' = v /\ slabs' = {}
            /\ buf' = [ s \in Sides |-> [ p \in 1..Words(Along(s,ni,nj),Depths(v),T) |-> <<0>> ] ]
            /\ UNCHANGED <<ni,nj,vecs,todo,disk,D,T>>
Slab(k,t) == /\ cur # "none" /\ <<k,t>> \notin slabs
             /\ slabs' = slabs \cup {<<k,t>>}
             /\ buf' = [ s \in Sides |-> LET L == Along(s,ni,nj) IN
                   IF ~Enabled(vecs[s]) THEN buf[s] ELSE
                   [ p \in DOMAIN buf[s] |->
                       IF DepthOf(p-1,L,Depths(cur)) = k /\ TimeOf(p-1,L,Depths(cur)) = t
                       THEN <<cur,k,t,Point(s,vecs[s],Stag(cur),AlongOf(p-1,L),ni,nj)>> ELSE buf[s][p] ] ]
             /\ UNCHANGED <<ni,nj,vecs,todo,cur,disk,D,T>>
Write == /\ cur # "none" /\ slabs = (0..Depths(cur)-1) \X (0..T-1)
         /\ disk' = [ s \in Sides |-> IF Enabled(vecs[s]) THEN [disk[s] EXCEPT ![cur] = buf[s]] ELSE disk[s] ]
         /\ cur' = "none" /\ todo' = todo \ {cur}
         /\ UNCHANGED <<ni,nj,vecs,slabs,buf,D,T>>
Next == (\E v \in V : Begin(v)) \/ (\E k \in 0..MaxD-1, t \in 0..MaxT-1 : k < Depths(IF cur = "none" THEN "T" ELSE cur) /\ t < T /\ Slab(k,t)) \/ Write
Spec == Init /\ [][Next]_vars

Old == {Empty, <<Stale>>}
\* a written file is complete and in order, whatever the order of the slabs
FilesOK == \A s \in Sides, v \in V : disk[s][v] \notin Old =>
   LET L == Along(s,ni,nj) Dv == Depths(v) IN
   /\ Enabled(vecs[s])
   /\ Len(disk[s][v]) = Words(L,Dv,T)
   /\ \A b \in 0..L-1, k \in 0..Dv-1, t \in 0..T-1 :
        disk[s][v][1 + b + L*(k + Dv*t)] = <<v,k,t,Point(s,vecs[s],Stag(v),b,ni,nj)>>
Disabled == \A s \in Sides : ~Enabled(vecs[s]) => \A v \in V : disk[s][v] \in Old
InRange(st,p) == p[1] \in 0..PShape(st,ni,nj,FALSE)[1]-1 /\ p[2] \in 0..PShape(st,ni,nj,FALSE)[2]-1
\* all points exist, and a normal velocity is on the face the cell shares with its inner neighbour
Inward(s) == CASE s = "N" -> <<0,-1>> [] s = "S" -> <<0,1>> [] s = "E" -> <<-1,0>> [] s = "W" -> <<1,0>>
Faces(st,c) == IF st = "U" THEN { c, <<c[1]+1,c[2]>> } ELSE { c, <<c[1],c[2]+1>> }
Normal(s) == IF AlongX(s) THEN "V" ELSE "U"
PointsOK == \A s \in Sides : Enabled(vecs[s]) => \A b \in 0..Along(s,ni,nj)-1 :
   LET c == Cell(s,vecs[s],b,ni,nj) d == Inward(s) inner == <<c[1]+d[1],c[2]+d[2]>> IN
   /\ c[1] \in 0..ni-1 /\ c[2] \in 0..nj-1
   /\ \A st \in {"T","U","V"} : InRange(st,Point(s,vecs[s],st,b,ni,nj))
   /\ Point(s,vecs[s],"T",b,ni,nj) = c
   /\ Faces(Normal(s),c) \cap Faces(Normal(s),inner) = { Point(s,vecs[s],Normal(s),b,ni,nj) }
   /\ vecs[s] = <<>> => ~(inner[1] \notin 0..ni-1 /\ ni > 1) /\ ~(inner[2] \notin 0..nj-1 /\ nj > 1)
\* negative indices name the same cells as their positive counterparts
Negative == \A s \in Sides : \A b \in 0..Along(s,ni,nj)-1 : \A n \in 1..Across(s,ni,nj) :
   LET A == Across(s,ni,nj) pos == [k \in 1..Along(s,ni,nj) |-> n] neg == [k \in 1..Along(s,ni,nj) |-> n-A-1] IN
   Cell(s,pos,b,ni,nj) = Cell(s,neg,b,ni,nj)
=============================================================================
