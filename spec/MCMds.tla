------------------------------- MODULE MCMds -------------------------------
(***************************************************************************)
(* The reader as a machine: an array is cut into tiles, some of them absent; *)
(* tiles are placed one at a time in any order into a target filled with the *)
(* fill value, each clipped to the region wanted (Clip, the arithmetic on    *)
(* index ranges).  Whatever the order the target ends as the selection of    *)
(* the assembled array, and no point is written twice.                      *)
(***************************************************************************)
EXTENDS Mds, TLC
CONSTANTS Grids       \* set of <<nz,ny,nx>>
VARIABLES dims, tiles, absent, rg, target, todo
vars == <<dims,tiles,absent,rg,target,todo>>
Fill == -1
Val(p) == 100 + p
Cuts(n) == { c \in SUBSET (1..n-1) : TRUE }
Bounds(n,c) == SetToSortSeq(c \cup {0,n}, LAMBDA u,v : u < v)
MkTile(d,x0,x1,y0,y1) ==
   LET n == <<d[1],y1-y0,x1-x0>> IN
   [ i0 |-> <<0,y0,x0>>, n |-> n, map |-> <<>>,
     data |-> [ p \in 1..Size(n) |-> LET q == Unflat(n,p-1) IN
                  Val(Flat(d, <<q[1], q[2]+y0, q[3]+x0>>)) ] ]
Cut(d,cx,cy) == LET bx == Bounds(d[3],cx) by == Bounds(d[2],cy)
                    m == Len(bx)-1 IN
   [ k \in 1..m*(Len(by)-1) |-> LET a == ((k-1) % m) + 1 b == ((k-1) \div m) + 1 IN
        MkTile(d,bx[a],bx[a+1],by[b],by[b+1]) ]
Regions(d) == { r \in (0..d[3]) \X (0..d[3]) \X (0..d[2]) \X (0..d[2]) : r[1] < r[2] /\ r[3] < r[4] }
Init == /\ dims \in Grids
        /\ \E cx \in Cuts(dims[3]), cy \in Cuts(dims[2]) : tiles = Cut(dims,cx,cy)
        /\ absent \in { s \in SUBSET DOMAIN tiles : Cardinality(s) <= 1 }
        /\ rg \in Regions(dims)
        /\ target = [ p \in 0..dims[1]*(rg[4]-rg[3])*(rg[2]-rg[1])-1 |-> <<Fill,0>> ]
        /\ todo = DOMAIN tiles \ absent
Min2(a,b) == IF a < b THEN a ELSE b
Max2(a,b) == IF a > b THEN a ELSE b
Clamp(v,lo,hi) == Min2(hi,Max2(lo,v))
Place == \E k \in todo :
   LET t == tiles[k] tx == t.i0[3] ty == t.i0[2]
       a == Clamp(tx,rg[1],rg[2]) b == Clamp(tx+t.n[3],rg[1],rg[2])
       c == Clamp(ty,rg[3],rg[4]) d == Clamp(ty+t.n[2],rg[3],rg[4])
       sh == <<dims[1],rg[4]-rg[3],rg[2]-rg[1]>>
   IN /\ target' = [ p \in DOMAIN target |->
           LET q == Unflat(sh,p) y == q[2]+rg[3] x == q[3]+rg[1] IN
           IF x >= a /\ x < b /\ y >= c /\ y < d
           THEN << t.data[1+Flat(t.n, <<q[1],y-ty,x-tx>>)], target[p][2]+1 >> ELSE target[p] ]
      /\ todo' = todo \ {k} /\ UNCHANGED <<dims,tiles,absent,rg>>
Spec == Init /\ [][Place]_vars
Present == [ k \in 1..Cardinality(DOMAIN tiles \ absent) |-> tiles[SetToSortSeq(DOMAIN tiles \ absent, LAMBDA u,v : u < v)[k]] ]
Right == todo = {} =>
   [ p \in 1..Cardinality(DOMAIN target) |-> target[p-1][1] ] = Selection(dims,1,<<Present>>,Fill,<<0>>,<<>>,rg)
Once == \A p \in DOMAIN target : target[p][2] <= 1
Whole == (todo = {} /\ absent = {}) => Assembled(dims,1,tiles,Fill) = [ p \in 1..Size(dims) |-> Val(p-1) ]
Apart == Disjoint(dims,tiles)
(* a map of <<0,1>> is no map; faces side by side tile the long row *)
Plain == \A p \in 0..Size(dims)-1, k \in DOMAIN tiles :
   Local(dims,[tiles[k] EXCEPT !.map = <<0,1>>],Unflat(dims,p)) = Local(dims,tiles[k],Unflat(dims,p))
MCGrids == { <<1,2,3>>, <<2,1,2>>, <<1,1,3>>, <<1,3,1>> }
BigGrids == { <<1,2,3>>, <<2,2,2>>, <<1,1,4>>, <<1,3,2>>, <<3,1,3>> }
=============================================================================
