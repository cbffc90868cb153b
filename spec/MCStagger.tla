---------------------------- MODULE MCStagger ----------------------------
(* Exhaustive check of the staggering algebra: for every grid size up to
   MaxN x MaxN, every field and entry. *)
EXTENDS Stagger, TLC
CONSTANT MaxN
VARIABLES nX, nY, f
vars == <<nX,nY,f>>
Init == nX \in 1..MaxN /\ nY \in 1..MaxN /\ f \in Fields
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Es(i,j) == { Elems(f,i,j)[k] : k \in DOMAIN Elems(f,i,j) }
StepFrom(e) == <<e[2],e[3]>>
StepTo(e)   == IF e[1]=0 THEN <<e[2]+1,e[3]>> ELSE <<e[2],e[3]+1>>

\* the two unit steps form a path between the two documented end locations
PathOK == Kind(f) \in {"dx","dy"} => \A ij \in Idx(nX,nY,f) :
   LET es == Elems(f,ij[1],ij[2])  en == Ends(f,ij[1],ij[2]) IN
     /\ StepFrom(es[1]) = en[1] /\ StepTo(es[1]) = StepFrom(es[2]) /\ StepTo(es[2]) = en[2]
     /\ es[1][1] = (IF Kind(f) = "dx" THEN 0 ELSE 1)
\* the four sub-cells are exactly the documented cell
BoxOK == Kind(f) = "area" => \A ij \in Idx(nX,nY,f) :
   LET b == Box(f,ij[1],ij[2]) IN
     Es(ij[1],ij[2]) = { <<2,p,q>> : p \in b[1][1]..b[2][1]-1, q \in b[1][2]..b[2][2]-1 }
\* no element is counted twice by a field
Disjoint == \A a, b \in Idx(nX,nY,f) : a # b => Es(a[1],a[2]) \cap Es(b[1],b[2]) = {}
\* tracer cells tile the grid; the other three families tile everything but the rim they leave undefined
Tiling == Kind(f) = "area" =>
   LET cov == UNION { Es(ij[1],ij[2]) : ij \in {x \in Idx(nX,nY,f) : Defined(nX,nY,f,x[1],x[2])} }
       all == { <<2,p,q>> : p \in 0..2*nX-1, q \in 0..2*nY-1 }
       rim == { e \in all : \/ (NiDel(f)=1 /\ e[2] \in {0,2*nX-1})
                            \/ (NjDel(f)=1 /\ e[3] \in {0,2*nY-1}) }
   IN cov = all \ rim
\* undefined entries are exactly those on an outer row/column their extent crosses
UndefOK == \A ij \in Idx(nX,nY,f) :
   (~Defined(nX,nY,f,ij[1],ij[2])) <=>
      \/ Kind(f) \in {"dx","area"} /\ NiDel(f) = 1 /\ ij[1] \in {0,nX}
      \/ Kind(f) \in {"dy","area"} /\ NjDel(f) = 1 /\ ij[2] \in {0,nY}
\* lengths along one coordinate line telescope: tracer-face lengths cover every step of their lines
LineCover == f \in {"DXG","DXF","DYG","DYF"} =>
   LET cov == UNION { Es(ij[1],ij[2]) : ij \in Idx(nX,nY,f) } IN
   \A ij \in Idx(nX,nY,f) :
      IF Kind(f) = "dx" THEN \A p \in 0..2*nX-1 : <<0,p,LQ(f,ij[2])>> \in cov
                        ELSE \A q \in 0..2*nY-1 : <<1,LP(f,ij[1]),q>> \in cov
=============================================================================
