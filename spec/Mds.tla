-------------------------------- MODULE Mds --------------------------------
(***************************************************************************)
(* MDS file sets.  An array has nrec records over dims = <<lead..., ny, nx>>.*)
(* A tile is a record                                                       *)
(*   [i0  |-> zero-based start per dimension, n |-> its extent per dimension, *)
(*    map |-> <<>> or <<a,b>>, data |-> its values, record by record, last   *)
(*    dimension fastest]                                                    *)
(* With a face map <<a,b>>, rows of the tile lie b*nx + a apart in the       *)
(* flattened horizontal plane.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Prod(s) == FoldLeft(LAMBDA a,b : a*b, 1, s)
Size(dims) == Prod(dims)
Suffix(dims,k) == Prod(SubSeq(dims,k+1,Len(dims)))
Unflat(dims,p) == [ k \in DOMAIN dims |-> (p \div Suffix(dims,k)) % dims[k] ]
Flat(dims,idx) == FoldLeft(LAMBDA a,k : a*dims[k] + idx[k], 0, [k \in DOMAIN dims |-> k])
NX(dims) == dims[Len(dims)]
NY(dims) == dims[Len(dims)-1]
Lead(dims) == SubSeq(dims,1,Len(dims)-2)

(* the point of tile t (local index) at global index idx, or <<>> *)
Local(dims,t,idx) ==
   LET L == Len(dims)-2 y == idx[L+1] x == idx[L+2]
       inlead == \A k \in 1..L : idx[k] >= t.i0[k] /\ idx[k] < t.i0[k] + t.n[k]
       lead == [ k \in 1..L |-> idx[k] - t.i0[k] ]
   IN IF ~inlead THEN <<>>
      ELSE IF t.map = <<>>
      THEN IF /\ y >= t.i0[L+1] /\ y < t.i0[L+1] + t.n[L+1]
              /\ x >= t.i0[L+2] /\ x < t.i0[L+2] + t.n[L+2]
           THEN lead \o << y - t.i0[L+1], x - t.i0[L+2] >> ELSE <<>>
      ELSE LET st == t.map[2]*NX(dims) + t.map[1]
               q == (y*NX(dims) + x) - (t.i0[L+2] + NX(dims)*t.i0[L+1])
           IN IF q >= 0 /\ q \div st < t.n[L+1] /\ q % st < t.n[L+2]
              THEN lead \o << q \div st, q % st >> ELSE <<>>
Value(dims,tiles,fill,r,idx) ==
   LET own == { k \in DOMAIN tiles : Local(dims,tiles[k],idx) # <<>> } IN
   IF own = {} THEN fill
   ELSE LET t == tiles[CHOOSE k \in own : TRUE] IN
        t.data[1 + r*Size(t.n) + Flat(t.n, Local(dims,t,idx))]
Disjoint(dims,tiles) == \A p \in 0..Size(dims)-1 :
   Cardinality({ k \in DOMAIN tiles : Local(dims,tiles[k],Unflat(dims,p)) # <<>> }) <= 1
(* the whole array, flat *)
Assembled(dims,nrec,tiles,fill) ==
   [ p \in 1..nrec*Size(dims) |->
       Value(dims,tiles,fill,(p-1) \div Size(dims), Unflat(dims,(p-1) % Size(dims))) ]

---------------------------------------------------------------------------
(* Selections.  rec: sequence of record numbers; levs: one sequence per     *)
(* selected leading dimension; region <<x0,x1,y0,y1>> half open.            *)
FromEnd(k,n) == IF k < 0 THEN k + n ELSE k
Region(dims,region) == IF region = <<>> THEN <<0,NX(dims),0,NY(dims)>>
   ELSE << FromEnd(region[1],NX(dims)), FromEnd(region[2],NX(dims)),
           FromEnd(region[3],NY(dims)), FromEnd(region[4],NY(dims)) >>
SelShape(dims,levs,rg) ==
   [ k \in 1..Len(levs) |-> Len(levs[k]) ] \o SubSeq(dims,Len(levs)+1,Len(dims)-2)
   \o << rg[4]-rg[3], rg[2]-rg[1] >>
Source(dims,levs,rg,q) ==       \* index in the array of index q of the selection
   LET L == Len(dims)-2 IN
   [ k \in DOMAIN dims |-> IF k <= Len(levs) THEN FromEnd(levs[k][q[k]+1],dims[k])
                           ELSE IF k = L+1 THEN q[k] + rg[3]
                           ELSE IF k = L+2 THEN q[k] + rg[1] ELSE q[k] ]
(* sets: one sequence of tiles per iteration read *)
Selection(dims,nrec,sets,fill,recs,levs,region) ==
   LET rg == Region(dims,region) sh == SelShape(dims,levs,rg)
       N == Size(sh) R == Len(recs) IN
   [ p \in 1..Len(sets)*R*N |->
       LET s == (((p-1) \div N) \div R) + 1
           r == FromEnd(recs[(((p-1) \div N) % R) + 1], nrec)
       IN Value(dims,sets[s],fill,r,Source(dims,levs,rg,Unflat(sh,(p-1) % N))) ]
(* axes for iterations, records and selected levels: all of length one are
   dropped, or, without squeezing, those selected by a scalar *)
Keep(sh,scalar,squeeze) == SelectSeq([k \in DOMAIN sh |-> <<sh[k],scalar[k]>>],
      LAMBDA a : IF squeeze THEN a[1] > 1 ELSE ~a[2])
ResultShape(dims,nits,itscalar,nrecs,recscalar,levs,levscalar,region,squeeze) ==
   LET sh == SelShape(dims,levs,Region(dims,region))
       front == <<nits,nrecs>> \o SubSeq(sh,1,Len(levs))
       kept == Keep(front, <<itscalar,recscalar>> \o levscalar, squeeze)
   IN [ k \in DOMAIN kept |-> kept[k][1] ] \o SubSeq(sh,Len(levs)+1,Len(sh))

---------------------------------------------------------------------------
(* Writing.  shape of the array; ndims, nrecords, dimlist may be <<>> (absent)*)
Reverse2(s) == [ k \in DOMAIN s |-> s[Len(s)+1-k] ]
LeadCount(shape,n) ==      \* fewest leading dimensions whose product reaches n
   LET ok == { k \in 0..Len(shape) : Prod(SubSeq(shape,1,k)) >= n } IN
   IF ok = {} THEN Len(shape)+1 ELSE CHOOSE k \in ok : \A j \in ok : k <= j
NDims(shape,ndims,nrecords) ==
   IF ndims # <<>> THEN ndims[1]
   ELSE IF nrecords = <<>> THEN IF Len(shape) < 3 THEN Len(shape) ELSE 3
   ELSE Len(shape) - LeadCount(shape,nrecords[1])
Fold(shape,ndims,nrecords,dimlist) ==
   LET nd == NDims(shape,ndims,nrecords) IN
   IF nd < 1 \/ nd > Len(shape) THEN [ok |-> FALSE]
   ELSE LET k == Len(shape)-nd rec == Prod(SubSeq(shape,1,k))
            dl == Reverse2(SubSeq(shape,k+1,Len(shape)))
        IN IF \/ (nrecords # <<>> /\ nrecords[1] # rec)
              \/ (dimlist # <<>> /\ dimlist # dl) THEN [ok |-> FALSE]
           ELSE [ok |-> TRUE, ndims |-> nd, nrecords |-> rec, dimlist |-> dl]
=============================================================================
