------------------------------ MODULE Stagger ------------------------------
(***************************************************************************)
(* The Arakawa-C staggering that every simplegrid grid obeys.              *)
(*                                                                         *)
(* A grid with nX x nY tracer cells is described on a "compute lattice" of *)
(* twice the resolution: lattice points (p,q), 0 <= p <= 2nX,              *)
(* 0 <= q <= 2nY.  Four kinds of location live on it:                      *)
(*    Z  cell corners       (2i  ,2j  )                                    *)
(*    U  west face centres  (2i  ,2j+1)                                    *)
(*    V  south face centres (2i+1,2j  )                                    *)
(*    T  cell centres       (2i+1,2j+1)                                    *)
(* and three kinds of element: unit x-steps, unit y-steps and unit         *)
(* sub-cells.  Each of the sixteen fields is (Loc, Kind): a coordinate of  *)
(* the location, the length of the two unit steps centred on it along one  *)
(* axis, or the area of the four sub-cells around it.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FieldNames == << "XC","YC","DXF","DYF","RAC","XG","YG","DXV","DYU","RAZ",
                 "DXC","DYC","RAW","RAS","DXG","DYG" >>
Fields == { FieldNames[k] : k \in 1..16 }

Loc(f) == CASE f \in {"XC","YC","DXF","DYF","RAC"} -> "T"
            [] f \in {"XG","YG","DXV","DYU","RAZ"} -> "Z"
            [] f \in {"DXC","DYG","RAW"}           -> "U"
            [] f \in {"DYC","DXG","RAS"}           -> "V"

Kind(f) == CASE f \in {"XC","XG"}                       -> "lon"
             [] f \in {"YC","YG"}                       -> "lat"
             [] f \in {"DXF","DXV","DXC","DXG"}         -> "dx"
             [] f \in {"DYF","DYU","DYC","DYG"}         -> "dy"
             [] f \in {"RAC","RAZ","RAW","RAS"}         -> "area"

\* one more row/column than the cell count where the location sits on a west/south face
NiDel(f) == IF Loc(f) \in {"Z","U"} THEN 1 ELSE 0
NjDel(f) == IF Loc(f) \in {"Z","V"} THEN 1 ELSE 0

\* lattice position of entry (i,j) (zero-based) of field f
LP(f,i) == IF NiDel(f) = 1 THEN 2*i ELSE 2*i + 1
LQ(f,j) == IF NjDel(f) = 1 THEN 2*j ELSE 2*j + 1

\* elements are <<axis,p,q>>: axis 0 = step (p,q)-(p+1,q), 1 = step (p,q)-(p,q+1),
\* 2 = sub-cell with low corner (p,q)
ElemsAt(kind,p,q) ==
   CASE kind = "dx"   -> << <<0,p-1,q>>, <<0,p,q>> >>
     [] kind = "dy"   -> << <<1,p,q-1>>, <<1,p,q>> >>
     [] kind = "area" -> << <<2,p-1,q-1>>, <<2,p,q-1>>, <<2,p,q>>, <<2,p-1,q>> >>
     [] OTHER         -> << >>

Elems(f,i,j) == ElemsAt(Kind(f), LP(f,i), LQ(f,j))

InLattice(nX,nY,e) ==
   CASE e[1] = 0 -> e[2] \in 0..2*nX-1 /\ e[3] \in 0..2*nY
     [] e[1] = 1 -> e[2] \in 0..2*nX   /\ e[3] \in 0..2*nY-1
     [] e[1] = 2 -> e[2] \in 0..2*nX-1 /\ e[3] \in 0..2*nY-1

\* an entry is defined iff everything it is made of lies inside the grid
Defined(nX,nY,f,i,j) ==
   \A k \in DOMAIN Elems(f,i,j) : InLattice(nX,nY,Elems(f,i,j)[k])

Idx(nX,nY,f) == (0..nX-1+NiDel(f)) \X (0..nY-1+NjDel(f))

\* location of kind L at (i,j) as a lattice point, used to state what the fields mean
At(L,i,j) == << IF L \in {"Z","U"} THEN 2*i ELSE 2*i+1,
                IF L \in {"Z","V"} THEN 2*j ELSE 2*j+1 >>

\* documented meaning of the length fields: the two locations they separate
Ends(f,i,j) ==
   CASE f = "DXG" -> << At("Z",i,j),   At("Z",i+1,j) >>
     [] f = "DYG" -> << At("Z",i,j),   At("Z",i,j+1) >>
     [] f = "DXF" -> << At("U",i,j),   At("U",i+1,j) >>
     [] f = "DYF" -> << At("V",i,j),   At("V",i,j+1) >>
     [] f = "DXC" -> << At("T",i-1,j), At("T",i,j)   >>
     [] f = "DYC" -> << At("T",i,j-1), At("T",i,j)   >>
     [] f = "DXV" -> << At("V",i-1,j), At("V",i,j)   >>
     [] f = "DYU" -> << At("U",i,j-1), At("U",i,j)   >>

\* documented meaning of the area fields: low and high corner of the cell
Box(f,i,j) ==
   CASE f = "RAC" -> << At("Z",i,j),     At("Z",i+1,j+1) >>
     [] f = "RAZ" -> << At("T",i-1,j-1), At("T",i,j)     >>
     [] f = "RAW" -> << At("V",i-1,j),   At("V",i,j+1)   >>
     [] f = "RAS" -> << At("U",i,j-1),   At("U",i+1,j)   >>
=============================================================================
