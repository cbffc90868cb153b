------------------------------ MODULE MCFaces ------------------------------
(* Face maps: nf faces of s x s points, each cut into tiles of w x h, stored
   as one long line (map <<s,0>>), side by side (map <<0,1>>, nx = nf*s) or
   stacked (compact, nx = s).  In each layout the tiles cover the array once,
   and all layouts hold the same points face by face. *)
EXTENDS Mds, TLC
VARIABLES nf, s, w, h
Init == /\ nf \in 1..3 /\ s \in 1..4 /\ w \in {k \in 1..s : s % k = 0} /\ h \in {k \in 1..s : s % k = 0}
Next == UNCHANGED <<nf,s,w,h>>
Spec == Init /\ [][Next]_<<nf,s,w,h>>
Line == <<1,nf*s*s>>
Wide == <<s,nf*s>>
Tall == <<nf*s,s>>
\* tile (f,a,b): face f, a-th across, b-th up
Data(f,a,b) == [ p \in 1..w*h |-> <<f, a*w + ((p-1) % w), b*h + ((p-1) \div w)>> ]
LineTile(f,a,b) == [i0 |-> <<0, f*s*s + b*h*s + a*w>>, n |-> <<h,w>>, map |-> <<s,0>>, data |-> Data(f,a,b)]
WideTile(f,a,b) == [i0 |-> <<b*h, f*s + a*w>>, n |-> <<h,w>>, map |-> <<>>, data |-> Data(f,a,b)]
TallTile(f,a,b) == [i0 |-> <<f*s + b*h, a*w>>, n |-> <<h,w>>, map |-> <<0,1>>, data |-> Data(f,a,b)]
All(T(_,_,_)) == LET m == s \div w q == s \div h IN
   [ k \in 1..nf*m*q |-> T((k-1) \div (m*q), (k-1) % m, ((k-1) \div m) % q) ]
Fill == <<>>
LineA == Assembled(Line,1,All(LineTile),Fill)
WideA == Assembled(Wide,1,All(WideTile),Fill)
TallA == Assembled(Tall,1,All(TallTile),Fill)
CoverLine == Disjoint(Line,All(LineTile)) /\ \A f \in 0..nf-1, y \in 0..s-1, x \in 0..s-1 : LineA[1 + f*s*s + y*s + x] = <<f,x,y>>
CoverWide == Disjoint(Wide,All(WideTile)) /\ \A f \in 0..nf-1, y \in 0..s-1, x \in 0..s-1 : WideA[1 + y*nf*s + f*s + x] = <<f,x,y>>
CoverTall == Disjoint(Tall,All(TallTile)) /\ TallA = LineA
=============================================================================
