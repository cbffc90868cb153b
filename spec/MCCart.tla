------------------------------ MODULE MCCart ------------------------------
(* Walks the lattice of 15-degree directions; each state checks identities
   exactly: unit length, periodicity, antipodes, poles, quarter turns, and the
   symmetry of the triangle expressions. *)
EXTENDS Cart
VARIABLES lon, lat
Init == lon = -24 /\ lat = -6
Next == \/ lat < 6 /\ lat' = lat + 1 /\ UNCHANGED lon
        \/ lat = 6 /\ lon < 24 /\ lon' = lon + 1 /\ lat' = -6
Spec == Init /\ [][Next]_<<lon,lat>>
P == Cart16(lon,lat)
Unit == Dot(P,P) = One
Periodic == Cart16(lon+24,lat) = P
Antipode == Cart16(lon+12,-lat) = << SNeg(P[1]), SNeg(P[2]), SNeg(P[3]) >>
Poles == lat \in {-6,6} => P = <<SZero,SZero,SInt(16*(IF lat = 6 THEN 1 ELSE -1))>>
Quarter == LET Q == Cart16(lon+6,lat) IN Q[1] = SNeg(P[2]) /\ Q[2] = P[1] /\ Q[3] = P[3]
OverPole == Cart16(lon,12-lat) = Cart16(lon+12,lat)
X == Cart16(lon+1,lat)
Y == Cart16(lon,lat+1)
Triangles == /\ TriNum(P,X,Y) = TriNum(X,Y,P)
             /\ TriNum(P,X,Y) = SNeg(TriNum(X,P,Y))
             /\ TriDen(P,X,Y) = TriDen(Y,P,X)
(* a cell of the lattice and the cell a quarter turn on are congruent *)
Cell(l) == << Cart16(l,lat), Cart16(l+1,lat), Cart16(l+1,lat+1), Cart16(l,lat+1) >>
Congruent == /\ SphereTerms(Cell(lon)) = SphereTerms(Cell(lon+6))
             /\ SphereTerms(Cell(lon)) = SphereTerms(Cell(lon+1))
             /\ LET v == VectorArea(Cell(lon)) w == VectorArea(Cell(lon+1)) IN Dot(v,v) = Dot(w,w)
=============================================================================
