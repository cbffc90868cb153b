------------------------------- MODULE Cart -------------------------------
(***************************************************************************)
(* Points of the sphere at multiples of 15 degrees, exactly, and the cells  *)
(* of a matrix of corners.  Coordinates are sixteen times those of the unit *)
(* sphere.  The area of a spherical triangle abc is                         *)
(*    2 arctan2(|a.(b x c)|, 1 + a.b + b.c + c.a)                           *)
(* and the planar (facet) area of a quadrilateral abcd half the length of   *)
(* the vector area ab x ac + ac x ad.                                       *)
(***************************************************************************)
EXTENDS Surd, TLC
Cart16(lon,lat) == << SMul(C4(lon),C4(lat)), SMul(S4(lon),C4(lat)),
                      SMul(S4(lat),SInt(4)) >>
VSub(p,q) == << SSub(p[1],q[1]), SSub(p[2],q[2]), SSub(p[3],q[3]) >>
VAdd(p,q) == << SAdd(p[1],q[1]), SAdd(p[2],q[2]), SAdd(p[3],q[3]) >>
Dot(p,q) == SAdd(SMul(p[1],q[1]), SAdd(SMul(p[2],q[2]), SMul(p[3],q[3])))
Cross(p,q) == << SSub(SMul(p[2],q[3]),SMul(p[3],q[2])),
                 SSub(SMul(p[3],q[1]),SMul(p[1],q[3])),
                 SSub(SMul(p[1],q[2]),SMul(p[2],q[1])) >>
One == SInt(256)             \* dot products carry a factor 256
TriNum(a,b,c) == Dot(a,Cross(b,c))        \* times 16^3, signed
TriDen(a,b,c) == SAdd(One, SAdd(Dot(a,b), SAdd(Dot(b,c), Dot(c,a))))   \* times 16^2
(* corner matrices: rows of <<lon,lat>>; cell (i,j), counterclockwise *)
Cells(M) == (1..Len(M)-1) \X (1..Len(M[1])-1)
Corner(M,i,j) == Cart16(M[i][j][1], M[i][j][2])
Quad(M,i,j) == << Corner(M,i,j), Corner(M,i+1,j), Corner(M,i+1,j+1), Corner(M,i,j+1) >>
SphereTerms(q) == << <<TriNum(q[1],q[2],q[3]), TriDen(q[1],q[2],q[3])>>,
                     <<TriNum(q[1],q[3],q[4]), TriDen(q[1],q[3],q[4])>> >>
VectorArea(q) == VAdd(Cross(VSub(q[2],q[1]),VSub(q[3],q[1])),
                      Cross(VSub(q[3],q[1]),VSub(q[4],q[1])))    \* times 256
=============================================================================
